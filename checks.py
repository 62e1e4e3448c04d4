"""The checks: which harness properties decide which listed property."""

# functions wrapped at link time, per harness
PTHREAD = ['pthread_mutex_lock', 'pthread_mutex_unlock', '_ZNSt18condition_variable10notify_oneEv',
           '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE',
           'sem_wait', 'sem_post', 'pthread_cond_clockwait']
FLAGS = {'h_args': ['-std=c++20']}       # of one harness: the reference is std::format
DEFAULT_WRAPS = {
    'h_queue': PTHREAD,
    'h_queue_mingw': PTHREAD,
    'h_cq': PTHREAD,
    'h_async': PTHREAD,
    'h_registry': PTHREAD,
    'h_periodic': PTHREAD,
    'h_mt': PTHREAD,
    'h_fault': ['fwrite', 'fflush', 'fclose', 'open', '_ZNSt6chrono3_V212system_clock3nowEv'],
    'h_durability': ['fwrite', 'fflush', 'fclose'],
    'h_leak': ['malloc', 'calloc', 'realloc', 'free'],
    'h_open': ['open', 'open64', 'fdopen', 'fopen', 'fopen64', 'mkdir'],
}


def part(harness, prop, variant='asan', workers=2, secs=12.0, **kw):
    d = dict(harness=harness, prop=prop, variant=variant, workers=workers, secs=secs)
    d.update(kw)
    return d


# coverage-guided search (libFuzzer chooses the bytes that the choices are made from)
FUZZ = {
    'C05': [('h_queue', 'block_seq')], 'C06': [('h_queue', 'ring')], 'C07': [('h_backtrace', 'history')], 'C08': [('h_logger', 'levels')],
    'C09': [('h_format', 'pattern')], 'C10': [('h_format', 'history')], 'C12': [('h_file', 'rolling')], 'C13': [('h_file', 'basic')],
    'C15': [('h_fault', 'throwing'), ('h_fault', 'files')], 'C16': [('h_registry', 'names')], 'C17': [('h_registry', 'settings')],
    'C27': [('h_cq', 'cq_seq')], 'C28': [('h_args', 'args')],
    'C21': [('h_msgbuf', 'stored'), ('h_msgbuf', 'queued')], 'C22': [('h_logger', 'cloneswap')], 'C25': [('h_stream', 'streams')],
}

CHECKS = {
    'C09': dict(
        level='exploration',
        rule='a pattern (documented flags, padding, alignment, truncation, colour marks, unknown and incomplete '
             'specifications, custom flags), an end of line, a time zone and a message are generated; the rendered '
             'text and colour range are compared with an independent model. Non-trivial: at least two specifications '
             'or one with padding.',
        parts=[part('h_format', 'pattern', workers=6, cases=60000)]),
    'C10': dict(
        level='exploration',
        rule='a history of format, clone, set_pattern, create and destroy on up to 6 formatters, message times often '
             'in the same second; every output is compared with the stateless model. Non-trivial: at least three '
             'messages formatted and one other operation.',
        parts=[part('h_format', 'history', workers=6, cases=15000)]),
    'C11': dict(
        level='exploration',
        rule='a logger writes generated messages through colour and plain standard-stream sinks to pseudo-terminals or '
             'pipes under a generated TERM/COLORTERM; what arrives is compared with the plain text plus the colour of '
             'the level around the marked range. Non-trivial: a colour sink writes to a terminal.',
        parts=[part('h_color', 'colour', workers=8, cases=3000)]),
    'C05': dict(
        level='exploration',
        rule='histories of every queue operation against a model, and producer/consumer runs under delayed, signalled '
             'and confined schedules checked for conservation, FIFO and counters. Non-trivial: at least two operations '
             'that took or dropped an item; for the threaded part, more items than capacity and more than two threads.',
        parts=[part('h_queue', 'block_seq', workers=2, cases=8000),
               part('h_queue', 'block_mt', variant='plain', workers=5, cases=3000),
               part('h_queue', 'block_mt', variant='tsan', workers=2, cases=1000),
               part('h_queue_mingw', 'block_seq', workers=1, secs=8), part('h_queue_mingw', 'block_mt', variant='plain', workers=2, secs=8),
               part('h_queue_mingw', 'block_mt', variant='tsan', workers=1, secs=8),
               part('h_patience', 'queue', variant='plain', workers=5, secs=8)]),
    'C06': dict(
        level='exploration',
        rule='a history of push, pop, copy, move, clear, resize over up to 4 ring buffers compared with a model after '
             'every step. Non-trivial: at least three pushes.',
        parts=[part('h_queue', 'ring', workers=6, cases=40000)]),
    'C07': dict(
        level='exploration',
        rule='a history of enabling, disabling, logging at any level, level changes and dumps on a sync or async logger '
             'with 1-3 sinks, compared with a model; and threads logging while others dump. Non-trivial: a dump of an '
             'enabled backtrace after more than three messages; for threads, more messages than the size.',
        parts=[part('h_backtrace', 'history', workers=4, secs=10),
               part('h_backtrace', 'threads', workers=2, secs=10),
               part('h_backtrace', 'threads', variant='tsan', workers=1, secs=10)]),
    'C21': dict(
        level='exploration',
        rule='a history of storing, copying, moving, assigning (also to itself), vector growth and destruction over up to '
             'six stored messages with texts around the inline sizes, compared with a model after every step. '
             'Non-trivial: at least two copies or moves.',
        parts=[part('h_msgbuf', 'stored', workers=4, secs=9), part('h_msgbuf', 'queued', workers=2, secs=9)]),
    'C08': dict(
        level='exploration',
        rule='a history of calls of 26 forms (overloads, free functions, formatted and plain texts with braces, NUL and '
             'lengths around the inline sizes), level changes and flushes on loggers with 0-3 sinks, compared with a model. '
             'Non-trivial: at least two messages written and one held back.',
        parts=[part('h_logger', 'levels', workers=6, secs=10)]),
    'C22': dict(
        level='exploration',
        rule='a history of clone, swap, level, pattern, sink-list and backtrace changes over up to seven loggers sharing '
             'four sinks, compared with a model, each logger used after each step. Non-trivial: a clone or swap and more '
             'than two messages written.',
        parts=[part('h_logger', 'cloneswap', workers=6, secs=9)]),
    'C12': dict(
        level='exploration',
        rule='1-3 sessions of a rolling sink over generated names, limits and files already there, with messages that fit '
             'exactly, are one byte too long, empty or over the limit, flushes, and other processes making or removing '
             'numbered files; the directory is compared with a model. Non-trivial: at least one roll.',
        parts=[part('h_file', 'rolling', workers=6, secs=12), part('h_file', 'rolling_limits', workers=1, secs=1, cases=300)]),
    'C13': dict(
        level='exploration',
        rule='a history of opening (append or truncate, relative or absolute, nested, doubled separators), logging, flushing '
             'and closing up to four file sinks over up to three files; contents, directories and descriptors are compared '
             'with a model. Non-trivial: at least two messages written.',
        parts=[part('h_file', 'basic', workers=6, secs=12)]),
    'C14': dict(
        level='fault_enumeration',
        rule='open, stream-creation and mkdir calls fail by a generated plan of up to 16 calls each; attempts, pauses, '
             'descriptors, contents and the exception are checked. Non-trivial: at least one failed attempt.',
        parts=[part('h_open', 'retry', workers=8, secs=12),
               part('h_patience', 'opening', variant='plain', workers=5, secs=8)]),
    'C15': dict(
        level='fault_enumeration',
        rule='generated plans make sinks and formatters throw (seven exception types and unknown ones), format strings fail, '
             'and fwrite, fflush, fclose and open fail at the file sinks, on sync and async loggers, alone and from several '
             'threads; callers, other sinks, files and the reports on stderr are compared with a model. Non-trivial: at '
             'least two faults (one for file operations).',
        parts=[part('h_fault', 'throwing', workers=2, secs=9), part('h_fault', 'unknown', workers=1, secs=4),
               part('h_fault', 'files', workers=3, secs=9), part('h_fault', 'devfull', workers=1, secs=3), part('h_fault', 'disk_full', workers=1, secs=6),
               part('h_fault', 'threads', workers=2, secs=9), part('h_fault', 'threads', variant='tsan', workers=1, secs=9)]),
    'C16': dict(
        level='exploration',
        rule='a history of creating, initializing, registering (also twice), removing and looking up loggers under six names, '
             'of default loggers, automatic registration and settings by name, compared with a map after every step; and '
             'threads doing so at once, each on its own names and all on contended ones. Non-trivial: at least one refused '
             'registration.',
        parts=[part('h_registry', 'names', workers=4, secs=9), part('h_registry', 'threads', workers=3, secs=9),
               part('h_registry', 'threads', variant='tsan', workers=1, secs=9)]),
    'C17': dict(
        level='exploration',
        rule='a history of global and per-logger patterns, formatters, log and flush levels mixed with initializing, registering '
             'and removing loggers; after every step each logger is used and what it writes, holds back, flushes and reports is '
             'compared with a model; and threads doing so at once. Non-trivial: two global settings and two loggers.',
        parts=[part('h_registry', 'settings', workers=4, secs=10), part('h_registry', 'settings_threads', workers=2, secs=10),
               part('h_registry', 'settings_threads', variant='tsan', workers=2, secs=10)]),
    'C18': dict(
        level='exploration',
        rule='a history of initializing, registering (kept or not), switching, releasing pools and closing, of creating loggers '
             'through every factory and using them with slow sinks, compared with a model; and threads using factories of several '
             'sink types at once, and using the registered pool while another thread replaces it. Non-trivial: two switches and one with '
             'registered loggers that had messages pending; for the threads, no pool at the start, or several threads and three pools.',
        parts=[part('h_registry', 'pools', workers=4, secs=10), part('h_registry', 'factories', workers=3, secs=10),
               part('h_registry', 'pool_threads', workers=2, secs=10), part('h_registry', 'pool_threads', variant='tsan', workers=2, secs=10)]),
    'C01': dict(
        level='exploration',
        rule='1-6 producers with generated scripts (texts from empty to 70,000 bytes, times, locations, flushes, pauses) log '
             'through 1-3 loggers to 1-3 shared sinks (slow or fast, with levels) on a pool of any kind with a queue of 1 to 1000 '
             'and 1-4 workers, under delays at lock operations, a storm of signals and confined CPUs; what the sinks got when '
             'releasing the pool returned is compared with what was logged. Also: messages held back behind a gated start callback '
             'while their loggers are swapped, cloned and dropped. Non-trivial: several producers and more messages than the '
             'queue holds; for the held ones, a change after a message.',
        parts=[part('h_async', 'deliver', workers=4, secs=18), part('h_async', 'deliver', variant='plain', workers=2, secs=18),
               part('h_async', 'deliver', variant='notls', workers=1, secs=18), part('h_async', 'deliver', variant='tsan', workers=1, secs=18),
               part('h_async', 'held', workers=1, secs=10),
               part('h_patience', 'deliveries', variant='plain', workers=5, secs=8),
               part('h_patience', 'full_delivery', variant='plain', workers=5, secs=8)]),
    'C02': dict(
        level='exploration',
        rule='the runs of C01 restricted to the configurations that promise order; the messages of each thread are in order at '
             'every sink. Non-trivial: several producers and more messages than the queue holds.',
        parts=[part('h_async', 'order', workers=3, secs=15), part('h_async', 'order', variant='plain', workers=4, secs=15),
               part('h_async', 'order', variant='notls', workers=1, secs=15)]),
    'C03': dict(
        level='exploration',
        rule='the runs of C01 with many flushes and flush levels, also on synchronous loggers; at each return of flush() what the '
             'thread logged before is written and flushed, and the number and places of flushes are as the levels ask. '
             'Non-trivial: at least two explicit flushes.',
        parts=[part('h_async', 'flush', workers=4, secs=15), part('h_async', 'flush', variant='plain', workers=2, secs=15),
               part('h_async', 'flush', variant='notls', workers=1, secs=15), part('h_async', 'flush', variant='tsan', workers=1, secs=15),
               part('h_patience', 'flushes', variant='plain', workers=5, secs=8)]),
    'C04': dict(
        level='exploration',
        rule='a history of creating up to eight pools of all kinds (with callbacks or not), loggers on them, of logging and flushing '
             'from up to five threads that alternate between pools, of releasing pools on any thread and of refused worker counts; '
             'and pools released while others log. Non-trivial: two pools and two jobs of other threads; for the race, some messages '
             'written and some reported.',
        parts=[part('h_async', 'pools', workers=3, secs=14), part('h_async', 'pools', variant='plain', workers=1, secs=14),
               part('h_async', 'pools', variant='notls', workers=1, secs=14),
               part('h_async', 'release_race', workers=2, secs=14), part('h_async', 'release_race', variant='tsan', workers=1, secs=14),
               part('h_patience', 'releases', variant='plain', workers=5, secs=8)]),
    'C19': dict(
        level='exploration',
        rule='1-4 periodic functions at once with intervals in seven duration types (small, huge, zero, negative), with short or long '
             'work, destroyed before the first run, while waiting or during a run, under delays at lock operations; and histories of '
             'flush_every with loggers registered and removed. Non-trivial: at least two runs; for the flusher, several loggers.',
        parts=[part('h_periodic', 'runs', workers=3, secs=10), part('h_periodic', 'flusher', workers=3, secs=10),
               part('h_periodic', 'many_runs', variant='plain', workers=1, secs=8),
               part('h_periodic', 'together', workers=1, secs=8), part('h_periodic', 'runs', variant='tsan', workers=1, secs=10),
               part('h_periodic', 'together', variant='tsan', workers=1, secs=10),
               part('h_patience', 'periodic', variant='plain', workers=5, secs=8)]),
    'C20': dict(
        level='exploration',
        rule='2-6 threads with generated scripts log through 1-4 loggers (sync, some async) to 1-4 shared thread-safe sinks of seven kinds '
             '(stream, file, rolling file, plain and colour on both standard streams, to a file or a terminal), while one thread changes '
             'patterns, formatters, levels and colours and others flush, under delays, signals and confined CPUs. What arrived is parsed '
             'and every message compared with what the settings in force during its call allow. Non-trivial: a sink shared by loggers or '
             'whose format changes.',
        parts=[part('h_mt', 'threads', workers=4, secs=14), part('h_mt', 'threads', variant='plain', workers=2, secs=14),
               part('h_mt', 'threads', variant='tsan', workers=2, secs=14)]),
    'C24': dict(
        level='fault_enumeration',
        rule='child processes run generated scripts of logging and flushing (sync and async loggers of any pool, 1-3 threads, file, rolling '
             'and plain standard-output sinks, flush levels) and end by _exit, abort or a signal at a generated C library call, at a '
             'generated time from outside or at the end; or normally, by exit() with or without close(), or close() and _exit(). The files are '
             'compared with a journal in shared memory. Non-trivial: something was flushed and the script had not ended; for normal ends, '
             'more messages than the queue holds.',
        parts=[part('h_durability', 'crash', workers=4, secs=12), part('h_durability', 'normal_end', workers=4, secs=12)]),
    'C23': dict(
        level='exploration',
        rule='a pool of any kind with a queue of 1 to 257 and 1-4 workers whose sinks stand behind a gate, 1-5 producers; the gate lets '
             'generated numbers of messages through. After each step what was accepted and written is compared with what the queue '
             'size and the workers allow. Non-trivial: producers had to wait and the gate opened step by step.',
        parts=[part('h_async', 'backpressure', workers=3, secs=12), part('h_async', 'backpressure', variant='plain', workers=2, secs=12),
               part('h_async', 'backpressure', variant='notls', workers=1, secs=12),
               part('h_async', 'backpressure', variant='tsan', workers=1, secs=12),
               part('h_patience', 'full_queue', variant='plain', workers=5, secs=8)]),
    'C25': dict(
        level='exploration',
        rule='a history of logging, flushing, pattern and level changes, and writes, format changes and failures of the streams by their owner, '
             'on 1-5 stream and null sinks over 1-3 streams with buffers of generated sizes, through sync and async loggers; the text, what '
             'reached the device and the flushes are compared with a model after every step. Non-trivial: at least two messages written.',
        parts=[part('h_stream', 'streams', workers=6, secs=9)]),
    'C26': dict(
        level='exploration',
        rule='a history of making, using, cloning, swapping, registering and dropping pools, sinks, loggers and formatters, with failures, '
             'threads and factories, is run three times or more; afterwards descriptors, threads and live objects are as before and memory '
             'does not grow from run to run; and long runs of messages through loggers that stay do not use up memory. Non-trivial: at '
             'least five kinds of steps with messages.',
        parts=[part('h_leak', 'release', variant='plain', workers=4, secs=12), part('h_leak', 'release', variant='notls', workers=1, secs=12),
               part('h_leak', 'release', workers=1, secs=12),
               part('h_leak', 'steady', variant='plain', workers=2, secs=12)]),
    'C27': dict(
        level='exploration',
        rule='a history of putting in and taking out (one or several, copied or moved, with and without tokens, refused and throwing), of tokens, '
             'threads, moves, swaps and destruction on lock-free and blocking queues with blocks of 2, 4 or 32, compared with a model after every '
             'step; and producers and consumers at once under delays inside the items, checked for conservation, order and waits that end. '
             'Non-trivial: at least three items in and out; for threads, several of each kind.',
        parts=[part('h_cq', 'cq_seq', workers=3, secs=10), part('h_cq', 'cq_mt', variant='plain', workers=3, secs=10),
               part('h_cq', 'cq_mt', workers=1, secs=10), part('h_cq', 'sema', variant='plain', workers=1, secs=10),
               part('h_patience', 'semaphores', variant='plain', workers=5, secs=8)]),
    'C28': dict(
        level='exploration',
        rule='a format string of literal text and one to four fields with generated specifications (fill, alignment, sign, #, 0, width and precision '
             'also from arguments, type), given with arguments of 17 kinds to a sync or async logger; the text is compared with what std::format '
             'makes of it, field by field. Every case is non-trivial.',
        parts=[part('h_args', 'args', workers=6, secs=9), part('h_args', 'many', workers=1, secs=6)]),
    'C29': dict(
        level='exploration',
        rule='the library\'s Windows side, built against stand-ins for the Windows calls: UTF-8 and UTF-16 text converted both ways, with the range '
             'to colour, compared with a converter of its own; messages to colour and plain console sinks under changing patterns, colours and failing '
             'writes, the cells and colours of the consoles compared with a model; file and rolling sinks with wide paths of either separator, drives '
             'and failing handles, the whole tree compared. Non-trivial: text beyond ASCII; a coloured range; bytes written; a rolled file.',
        parts=[part('h_windows', 'convert', variant='win', workers=2, secs=9), part('h_windows', 'console', variant='win', workers=2, secs=9),
               part('h_windows', 'files', variant='win', workers=2, secs=9), part('h_windows', 'rolling', variant='win', workers=1, secs=9),
               part('h_windows', 'raw', variant='win', workers=1, secs=9),
               part('h_windows', 'threads', variant='win', workers=1, secs=9)]),
    'C30': dict(
        level='exploration',
        rule='generated programs: files with one to thirty of the public headers in generated orders, each with a C++ standard (11 to 20), a compiler (g++, '
             'clang++) and options of its own, that have to compile; and programs of three or four such files whose functions use the library in turn, '
             'compared with a model of what one copy of the library does (text of every logger, numbering of reports, exceptions across files, '
             'whole lines from threads of several files on a terminal). Non-trivial: a file of headers; a program with several files that use the library.',
        parts=[part('h_programs', 'headers', variant='plain', workers=2, secs=60), part('h_programs', 'programs', variant='plain', workers=4, secs=60),
               part('h_programs', 'programs', variant='notls', workers=2, secs=60)]),
}

for _id, _parts in FUZZ.items():
    CHECKS[_id]['parts'] += [part(_h, _p, variant='fuzz', workers=2, thorough_only=True) for _h, _p in _parts]

# the same guarantees on long scripts, large texts, capacities and numbers of things
VOLUME = {
    'C01': [('long_delivery', 'plain', 2), ('texts', 'asan', 1)], 'C02': [('long_order', 'plain', 2), ('long_order', 'asan', 1)],
    'C03': [('long_flush', 'plain', 2)], 'C04': [('many_pools', 'plain', 2), ('many_workers', 'plain', 1)],
    'C05': [('queue_size', 'asan', 1)], 'C06': [('ring_size', 'asan', 1)], 'C07': [('backtrace_size', 'asan', 2)],
    'C08': [('texts', 'asan', 2)], 'C16': [('many_loggers', 'asan', 2)], 'C17': [('many_loggers', 'asan', 1)],
    'C12': [('long_rolling', 'plain', 2)], 'C13': [('long_basic', 'plain', 1)],
}
for _id, _parts in VOLUME.items():
    CHECKS[_id]['parts'] += [part('h_volume', p, variant=v, workers=w, secs=9) for p, v, w in _parts]
    CHECKS[_id]['rule'] += ' Also the same at volume: scripts of thousands of messages, texts of megabytes, large capacities, many sinks, loggers, workers and pools.'
