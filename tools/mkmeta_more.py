p('C06', 'deterministic simulation with fault injection: process-wide state compared at every scheduling point of '
  'seeded runs (import, calls, reads, injected failures) with its state before the import',
  'run i imports the package and performs 2-4 calls with reads in 1-2 simulated threads with seeded faults in a forked '
  'process; 24 kinds of process-wide state are read at every line of the package, 11 more between operations; '
  'non-trivial: at least 50 snapshots were compared',
  'distinct (switch trace, fired faults, call kinds) hashes',
  'every snapshot of process-wide state must equal the one taken before the import; seeded search over call histories, '
  'interleavings and fault points', runs=(1500, 40000),
  assumptions=[A_SCHED, 'changes made and undone inside one third-party function are not seen',
               'loguru: the package disabling its own messages on import is its own business'])
STUB_AMB = ['system clocks (realtime, monotonic) and kernel entropy: LD_PRELOAD shim', 'TZ, locale, environment, working '
            'directory, random generators, CPU count: set per simulated machine']
p('C07', 'deterministic simulation: the same calls on simulated machines with virtual clocks (bases, steps, jumps, at '
  'import and in mid-call), entropy, zones, locales, environments, thread counts and interpreter flags, compared with a '
  'neutral machine',
  'run i draws 1-3 calls with six reads each and 2-4 simulated machines (about 1 in 11 runs has one in its own fresh '
  'interpreter with its own hash seed and optimisation flag); the environment keys the package is seen to read are '
  'discovered first and varied; non-trivial: at least one machine differs from the neutral one',
  'distinct (machine settings, call kinds) hashes',
  'seeded search over machine conditions; every answer must equal the one of the neutral machine', runs=(1200, 30000),
  stub=STUB_AMB, preload=True, locales=True, cap=(45, 2400))
p('C08', 'deterministic simulation: readings of simulated clocks that run, stall and step through zone transitions, given '
  'to a simulated fleet in every zone implementation and representation, compared with the same instants in naive UTC',
  'run i draws 1-9 clock readings (80% around an offset change of one of 21 zones), one entry point and backend, and 4-7 '
  'nodes (zone, implementation, representation, batching, order); non-trivial: more than one node answered',
  'distinct (instants, node settings, backend) hashes',
  'every node must report the instants, local times, zone, positions, sunrise and sunset of the naive-UTC reference; '
  'offsets come from the zone implementations themselves', runs=(2500, 60000),
  stub=['the clocks that produce the instants are simulated; the library, pandas, pytz, zoneinfo and dateutil are real'],
  assumptions=['instants 2000-2036 (pytz and dateutil have no transitions later); in 10% of the runs years 1019-1675 and '
               '2264-4505 in microseconds, with zoneinfo, fixed-offset and naive nodes only',
               'strings with several offsets in one call are not generated (pandas rejects them)'])
p('C09', 'deterministic simulation with fault injection: a coordinator deals observations to simulated workers (chunks, '
  'reordering, duplication, lost elements, workers dying in mid-call, redelivery, any entry point, large batches), each '
  'answer compared with the observation on its own',
  'run i draws up to 8 instants (also sub-second, and in 1811-2160) x 6 places or a track, one backend and 2-4 delivery '
  'plans of up to 12 messages, some empty (1 in 20 runs: one '
  'batch of 10^3 to 10^6 observations against its chunks and single observations); non-trivial: some message was split, '
  'reordered, duplicated, damaged or redelivered',
  'distinct (backend, delivery plan) hashes',
  'every value must carry its own labels and agree with a single-observation call within 0.001 degrees (1e-6 for the '
  'distance factor); lost elements must be NaN, exactly there',
  stub=['the coordinator and the delivery of messages are simulated; the library is real'],
  assumptions=['within 0.02 degrees of the zenith or nadir, where refraction points in a direction rounding decides, only '
               'the zenith is compared (positions must be there)',
               'Iqbal azimuths are compared for |latitude| <= 89 only (ill-conditioned at the poles)',
               'instants are lost from arrays only; a single NaT argument is rejected by the library'])
p('C10', 'deterministic simulation with fault injection: imports of backends and their dependency fail at seeded points '
  '(missing, any exception, at the n-th statement, for the first k attempts) in a simulated process; every backend is then '
  'asked, and answers are compared with a healthy process',
  'run i draws 0-8 import faults (18 exception kinds), the module imported first, 10-20 calls over all algorithm/engine '
  'pairs and a field of 1-1000 observations for the failover comparison; non-trivial: at least one fault fired',
  'distinct (faults, first module, calls, field) hashes',
  'healthy backends must answer exactly as in a healthy process, unavailable ones must raise ValueError naming the engine; '
  'numpy and numexpr answers must agree within 0.005 degrees',
  stub=['the import system: a finder in front of sys.meta_path decides which imports fail and where'],
  assumptions=['after a dependency that fails only for a while, a backend may answer or say it is missing',
               'within 0.02 degrees of the zenith or nadir, where refraction points in a direction rounding decides, only the '
               'zenith is compared, and within 0.004 degrees of the elevation where refraction sets in the engines may fall on '
               'either side'])
REAL_JPL = ['sunwhere.utils.jpl_horizons', 'urllib3, http.client, the ssl module\'s Python part', 'pandas', 'numpy', 'dateutil',
            'CPython files, directories and their system calls on a scratch directory']
STUB_JPL = ['sockets, name resolution and the TLS handshake (a simulated peer behind socket.socket)', 'the Horizons service '
            '(parses the query, answers in its text format with values determined by site and instant)', 'clock and sleep '
            '(simulated time)', 'disk faults and power loss (LD_PRELOAD shim in front of libc for paths under the scratch directory)']
A_JPL = ['renames and unlinks are durable in order once done; data is durable once synced (or by luck, up to a drawn share)',
         'a reply without any length (close-delimited) is cut before its end marker only']
p('C11', 'deterministic simulation with fault injection: the real download against a simulated network, service, clock and '
  'disk; seeded network, HTTP, disk, crash, power-loss and interrupt faults; the output file is compared with what was there '
  'and what the service really sent',
  'run i draws a query (2-3000 lines), a prior output file and 1-2 downloads with up to 3 exchange faults (22 kinds), disk '
  'faults at any operation, crash with or without power loss, or an interrupt at any line; non-trivial: a fault fired',
  'distinct (event log of network and disk, outcome, state of the file) hashes',
  'after every outcome the file must be its previous content or a complete reply byte for byte, the latter after a normal return',
  runs=(6000, 200000), real=REAL_JPL, stub=STUB_JPL, assumptions=A_JPL, preload=True, cap=(40, 2400))
p('C12', 'deterministic simulation with fault injection: histories of reads of a file that is cut, torn, replaced by error '
  'pages or completed between reads, with read errors, short reads and interrupts, judged against the text that is in it',
  'run i draws 1-4 reads in one process of files of 1-5000 lines: complete, cut at any byte before the end of the end marker, '
  'with a NUL tail, without or with swapped markers, an error page, or an interrupted copy with the whole file behind it; '
  'non-trivial: some file was damaged or some fault fired',
  'distinct (outcomes, damage and length of every file, zone) hashes',
  'a damaged file must raise, a complete one must give every line once, in order, as UTC', runs=(8000, 300000),
  real=['sunwhere.utils.jpl_horizons.read_jpl_ephemeris_file', 'pandas, numpy, dateutil', 'files on a scratch directory'],
  stub=['the text of the files (the simulated service)', 'disk read errors and short reads (LD_PRELOAD shim)'],
  assumptions=['damage leaves a prefix of the file (possibly followed by NULs) or another document; holes in the middle of a file '
               'and altered digits are not generated (the format carries no checksum)'], preload=True, cap=(35, 2400))
p('C13', 'deterministic simulation with fault injection: histories of year loads in simulated processes over one data '
  'directory, with network, service, disk, crash, power-loss and interrupt faults anywhere in the twelve downloads and the '
  'caching, then a load without faults and one without network',
  'run i draws a year, a site and 1-3 faulty loads (up to 3 exchange faults after any month, disk faults or crash at any of '
  'about 140 operations, an interrupt at any line), then a quiet load and an offline one; non-trivial: a fault fired',
  'distinct (outcomes, requests, disk operations, interrupt positions, files left) hashes',
  'every table returned must be the complete year of that site, the quiet load must succeed, and after a success no load may '
  'contact the server', runs=(1500, 60000), real=REAL_JPL, stub=STUB_JPL + ['DataFrame.to_parquet and read_parquet (pyarrow is '
  'not installed: a checksummed format through open())', 'dateutil answers for the dates of two years are kept (checked against '
  'dateutil)'], assumptions=A_JPL, preload=True, cap=(70, 3000), timeout=150)
p('C14', 'deterministic simulation with fault injection: sequences of year loads for near-equal, swapped, mirrored and '
  'differently written sites and two years over one data directory, in one or several simulated processes, with faults and crashes',
  'run i draws 2-4 sites derived from each other and 2-4 loads, a third of them with faults or without network; non-trivial: '
  'at least two different sites or years',
  'distinct (outcomes, years, sites, requests) hashes',
  'every table returned must be that of the year and site asked for, labelled with it', runs=(1500, 60000), real=REAL_JPL,
  stub=STUB_JPL + ['DataFrame.to_parquet and read_parquet, dateutil answers (as in C13)'], assumptions=A_JPL, preload=True,
  cap=(60, 3000), timeout=150)
p('C15', 'deterministic simulation with fault injection: download sequences whose queries are parsed and judged by the simulated '
  'service, with instants in every representation and zone, machine zones, retries after faults, and requests around the limit',
  'run i draws 1-3 downloads (16 representations of start and stop, 7 zones, number types, steps, ends off the step, up to '
  '10^6 lines, a fifth around the limit), two fifths with exchange faults; every run is non-trivial',
  'distinct (event log, outcome, representations) hashes',
  'every query must ask for the site (6 decimals, elevation 3), window and step requested and nothing else, the file must hold '
  'exactly that window, a refusal must leave no trace', runs=(4000, 100000), real=REAL_JPL, stub=STUB_JPL,
  assumptions=A_JPL + ['start, stop and step are whole minutes'], preload=True, cap=(40, 2400), timeout=120)
p('C16', 'deterministic simulation with fault injection: downloads from a simulated peer that stalls at seeded points (connect, '
  'TLS, request, headers, any byte of the reply) or asks to come back later, on a simulated clock',
  'run i draws a download and up to 5 exchange faults (70% stalls), 70% with a stall for ever after; non-trivial: a fault fired',
  'distinct (event log with simulated times, outcome) hashes',
  'every download must end within 900 simulated seconds, with an error or a complete file, and leave nothing else',
  runs=(8000, 200000), real=REAL_JPL, stub=STUB_JPL, assumptions=A_JPL + ['at most two addresses per name, lookups answer or fail '
  'at once, and a peer that sends at all sends within 5 seconds'], preload=True, cap=(35, 2400))
REAL_CLI = ['sunwhere command line and library', 'typer, click, tabulate, pandas, zoneinfo', 'CPython streams and file descriptors',
            'a share of the runs: a whole fresh interpreter']
p('C17', 'deterministic simulation: the command line on simulated machines (clock stopped, running or stepped between readings, '
  'machine zone, locale), with moments around zone transitions, compared with the library for the readings taken, with the zone '
  'database and with an independent low-precision ephemeris',
  'run i draws a moment (55% around an offset change of the requested or the machine zone), clock step and jumps at the first '
  'readings, one of 25 requested and 12 machine zones, a place (a third polar), algorithm and refraction; 6% in a fresh '
  'interpreter with a locale; every run is non-trivial',
  'distinct scenario hashes',
  'every row must be right for one single instant that the clock showed during the run', runs=(6000, 200000), real=REAL_CLI,
  stub=['system clock, entropy (LD_PRELOAD shim), machine zone and locale'], preload=True, locales=True, cap=(40, 2400),
  assumptions=['clock between 1970 and 2106', 'local sunrise and sunset may use the offset of the instant or of the event',
               'the values are those of the library for that instant and place (their accuracy is only checked coarsely)'])
p('C18', 'deterministic simulation with fault injection: the command line with seeded bad arguments, failing backends, errors of many '
  'kinds at any line of the library, and a standard output that is full, closed, broken, size-limited, without reader or unable to '
  'show the text; exit status against the bytes delivered and the same command where nothing fails',
  'run i draws a command and one or two of: a bad or odd argument, an output fault (12 kinds, half of them with short writes and '
  'errors at any write), an error of 30 kinds at any library line or a broken import; 8% with a broken standard error, a tenth in a '
  'fresh interpreter with optimisation 0-2; non-trivial: a fault fired or the argument was bad',
  'distinct (command, output, exit status, failing line) hashes',
  'exit 0 exactly when the complete right table is on standard output; otherwise a message and, unless the output failed, no values',
  runs=(8000, 200000), real=REAL_CLI, stub=['system clock (LD_PRELOAD shim)', 'disk behind standard output (LD_PRELOAD shim or '
  'RLIMIT_FSIZE)', 'errors raised at library lines'], preload=True, cap=(40, 2400),
  assumptions=['errors strike the library, not the few lines of the command line itself after the table was written',
               'ambiguous, non-existent and oddly written times may be taken or refused'])
p('C28', 'deterministic simulation with fault injection: a fleet of real worker processes under one coordinator that decides every '
  'call, send, delivery (late, twice, out of order, never), copy, fork (also in mid-call of another thread) and power loss; every '
  'value that any worker shows is compared with the same call alone in a fresh process',
  'run i draws 2-4 workers (10% with one in its own interpreter with another hash seed and optimisation flag), up to 6 forked from '
  'them and 8-24 operations over a family of near-identical call specifications (a fifth with bad arguments); every result that is still held at the end is read again; non-trivial: at least one '
  'fault, fork, copy or message fired',
  'distinct (operation sequence with its outcomes, call kinds) hashes',
  'everything received, inherited or copied must read as at home and stay isolated, errors must arrive as raised, no worker may '
  'hang (all its threads asleep without progress for 4 s while it owes an answer)',
  runs=(3000, 80000), real=['sunwhere entry points, _core, Sunpos and all seven backends', 'numpy, pandas, xarray, numexpr',
  'pickle, copy, fork, CPython threads', 'operating-system processes'],
  stub=['the network between workers (the coordinator keeps every message and delivers it when, where and as often as the scenario '
  'says)', 'the order in which workers act (one request at a time)'],
  assumptions=['a worker is forked in mid-call of another thread only while that thread runs a numpy engine: numexpr holds a lock of '
  'its own then, which Python does not reset in the child', 'messages arrive whole or not at all'])
p('C29', 'deterministic simulation with fault injection: seeded cycles of calls, reads, refusals, interrupts, downloads over a failing '
  'simulated network and disk, and table reads, repeated with other values until what the process holds comes to rest',
  'run i draws a cycle of 1-4 operations (70% calls and reads, some on short-lived threads, a third with interrupts at a seeded '
  'line; 30% downloads with network and disk faults and table reads of whole, cut and missing files) and repeats it 72 times and '
  'more with other instants, places and sizes; every run is non-trivial',
  'distinct (cycle with its outcomes, call kinds) hashes',
  'the number of memory blocks, allocated bytes, descriptors, threads, children and files must stop growing (within 2400 operations for '
  'calls, 1500 for downloads, so bounded caches may fill up), and no connection may stay open after a download has ended',
  runs=(3000, 80000), real=REAL_CALL[:-1] + ['urllib3, http.client, pathlib and file objects', 'CPython memory allocator and glibc malloc, '
  'as they report themselves'], stub=['server, sockets, name lookup, TLS, clocks and sleep (simulated), as in C11', 'disk errors at the C '
  'library (LD_PRELOAD shim)', 'interrupts raised at library lines'], preload=True,
  assumptions=['growth below half a memory block and 32 bytes per round is not seen', 'a cache may hold up to several hundred entries',
  'instants, places and sizes vary without end; zones, options and file names do not'])
p('C30', 'deterministic simulation with fault injection: several simulated processes, and threads in them, download to and load through '
  'one directory; each stops before every disk operation and network event (threads also at every line of the package), a seeded '
  'schedule says who goes on, processes are killed at seeded stops and have network, service, disk and interrupt faults of their own',
  'run i draws 2-4 actors (downloads to one file or files side by side, readers of it, loads of the same or other years and sites, '
  'over nothing, a broken-off or a complete earlier load), in processes of their own (two thirds) or as threads, a fifth with faults '
  'of their own, a sixth killed at a drawn stop, and a schedule (one stalls while others go on, in step with an offset, or random '
  'bursts); non-trivial: more than two switches',
  'distinct (sequence of stops of all actors, outcomes) hashes',
  'an actor without faults of its own must end as it would alone, whatever happens to the others; the output file holds its earlier '
  'content or one complete reply at every stop, the earlier content never after a success; a complete file can always be read; '
  'nobody waits for ever; afterwards a quiet and an offline load succeed; seeded search over schedules and faults',
  runs=(4000, 100000), real=REAL_JPL + ['processes, threads, file descriptors and file locks of the kernel'],
  stub=STUB_JPL + ['DataFrame.to_parquet and read_parquet, dateutil answers (as in C13)',
                   'locks of the package\'s threads (cooperative), waiting file locks (polled)'],
  assumptions=A_JPL[1:] + ['all processes run on one machine and see one file system', 'threads switch at disk operations, network events, '
                       'lines of the package and its locks only'], preload=True, cap=(75, 3000), timeout=60)
