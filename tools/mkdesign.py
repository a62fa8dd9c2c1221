doc = r'''# Deterministic simulation with fault injection for sunwhere

Contents: 1 what sunwhere is and what can go wrong in it · 2 the machinery · 3 the properties, one by one ·
4 not applicable · 5 defects found and repaired · 6 planted bugs and which check catches them ·
7 false alarms and harness errors that were corrected · 8 limits · 9 how to run, replay, extend

## 1. The system and its nondeterminism

sunwhere is a library (`sites`, `regular_grid`, `transect` → `_core.evaluate` → one of seven backends in `libspa`
→ a `Sunpos` result with lazily derived quantities), a downloader/reader/cache of NASA/JPL Horizons ephemerides
(`utils/jpl_horizons.py`) and a command line (`_cli`).  Nothing in it starts threads, but everything in it is run
*by* threads, signal handlers, fleets of machines, over a network and a disk, and by shells and cron.  The sources of
nondeterminism its guarantees depend on are:

| source | seam | what is behind it in a simulated run |
|---|---|---|
| thread scheduling, re-entrance (signals, finalisers) | `sys.monitoring` LINE / INSTRUCTION / PY_START events of sunwhere's code objects (`dst/sched.py`) | real threads, parked; one holds the baton; the scenario says who runs next at each event, and which nested call starts there |
| locks and sleeps | `threading.Lock/RLock/Condition…` and `time.sleep` as seen by the package | wrappers that hand on the baton instead of blocking; deadlocks are detected, not waited for |
| exceptions from outside (Ctrl-C, MemoryError, failing dependency) | the same events, and calls out of the package | raised at the n-th line / n-th call of the scenario |
| clocks, kernel entropy | `dst/shim/ambient.c` (LD_PRELOAD: clock_gettime, gettimeofday, time, getrandom, …) and, for the downloads, patched `time.*` | simulated clock: base, step per reading, jumps at seeded readings; seeded entropy |
| machine settings (TZ, locale, env, cwd, CPU and numexpr thread counts, hash seed, `-O`) | set per simulated machine, some in a fresh interpreter | drawn from the seed |
| imports | a finder in front of `sys.meta_path` (`dst/brokenimport.py`) | any module missing / raising at its n-th statement / failing only k times |
| network, TLS, Horizons service | `socket.socket`, `getaddrinfo`, TLS wrap (`dst/jplsim.py`) | simulated peer and service on a simulated clock: 22 kinds of fault |
| disk | `dst/shim/disk.c` (LD_PRELOAD in front of libc for paths under the scratch directory) | EIO/ENOSPC/…, short reads and writes, failing fsync/rename, crash at the n-th operation, power loss that keeps only what was synced (torn tails) |
| process death | `_exit` in a forked simulated process at the n-th disk operation | restart is a new forked process over the same directory |
| order of steps of several processes and threads at one disk | the same shim and the simulated network (`dst/actors.py`) | real processes (and threads), each stopped before every disk operation, network event and sleep; a seeded schedule releases one at a time; SIGKILL at the n-th stop; waiting file locks are polled |
| standard streams | real descriptors (`dst/clisim.py`) | closed, read-only, pipe without reader, full or size-limited disk, non-UTF-8, unbuffered, … |

**No hooks in /repo were needed**: every seam is the interpreter, libc or a module boundary.  /repo carries `fix:`
commits only.

## 2. The machinery

`run_check.py ID` (`dst/master.py`) starts up to 8 worker processes that import the third-party stack and sunwhere from
/repo/src *as it is now* (nothing is cached; byte code goes to the scratch directory).  Run *i* of a check is decided
by `sha256(VERIF_SEED | ID | i)`: `gen(r, i, tier)` of the property draws a **scenario** – plain JSON holding the whole
program of calls, the explicit schedule, the machine, the network and disk faults.  The worker forks a pristine child
per simulated process and executes the scenario there.  Everything observed (values as exact bytes, labels, metadata,
errors, switches, faults, network and disk events, simulated times) goes into an event log whose digest identifies the
execution.

*Violation*: (1) greedy delta debugging (`dst/minimize.py`, `shrink` of the property) keeps any smaller scenario with a
violation of the same class, (2) the minimised scenario is executed again in two fresh worker processes and must show
it both times, (3) it is written to `replays/ID-seed-run.json` with the schedule trace and the faults that fired, and
`VIOLATION property=ID replay=…` is printed.  `run_check.py ID --replay FILE` executes exactly that scenario.  A
violation that cannot be replayed is a harness error (exit 2), never a VIOLATION.

*Oracles.* No check compares with a copy of the code or a stored answer.  They are: the same call alone in a pristine
forked process of the same tree (C01–C05, C07), the state of the process before (C06), the answer of the same
observation on its own (C09) or of naive UTC (C08), a healthy process (C10), the bytes the simulated server sent and
the file's previous content (C11–C16), the zone databases, the simulated clock's own log, an independent low-precision
ephemeris (C17), the bytes that arrived at the descriptor plus the same command where nothing fails (C18), and what an actor would do alone (C30).  This
is why refactorings stay quiet: they change both sides.

*Evidence.* Runs, runs per hour, seeds, simulated seconds, fired faults by kind, switches, distinct histories by the
measure named in the evidence, which parts are real and which are stubs; "fired" counts faults that really struck, not
planned ones, and runs in which nothing struck are not counted as non-trivial.

*Cost.* Quick: 35–70 s per property on 8 cores, 10³–10⁴ runs.  Thorough: up to 40–50 min, 10⁴–10⁵ runs, with longer
histories, more threads and more faults per run.

## 3. The properties

@@PROPS@@

## 4. Not applicable

C19–C27 are pure functions of their arguments (accuracy, ranges, argument validation, refraction, sunrise geometry,
airmass and irradiance, incidence, true solar time conversions, charts).  No schedule, clock, I/O, fault or second
party takes part in them; running them under a simulator would be input sampling under another name, which is another
technique.  Where a schedule, clock or fault *does* touch them they are covered by a claimed property: read order and
isolation of every derived quantity (C01–C06), zones and daylight saving of sunrise/sunset (C08, C17), engine failover
(C10), lost elements (C09), the true present instant (C17).

## 5. Defects found and repaired

All were shown against the real code, repaired with `fix:` commits (`known_findings.json`, list `fixed`), and are
reported again if they return (each was re-checked with `tools/revertcheck.py`, which undoes one commit at a time in a
scratch copy; the five that no longer revert cleanly were broken again by hand.  The one exception is 81f736e, whose
effect 768d6ef now subsumes: undoing 81f736e alone is harmless):

@@FIXED@@

No finding is left unrepaired, so `findings` is empty and no check prints KNOWN-FINDING.

Noticed, but outside the technique and not touched: the documentation of the longitude range is inconsistent
(`[-180, 180]` against `[-180, 180)`); a single NaT as the only instant raises TypeError.

## 6. Planted bugs

Each was written from the property text and the code, confirmed in a scratch copy (demonstration fails with it and
passes without it, stable tests pass), and kept whether or not it was caught.

@@BUGS@@

## 7. False alarms and harness errors corrected

* C04: the `into` argument of a caller-owned result list was itself aliased by the harness; DatetimeIndex buffers are
  private (writing to them through `.values` is not something a caller may do) – both writes were removed.
* C07: `NUMEXPR_SANITIZE` and the thread variables are documented settings of numexpr read by numexpr, not by sunwhere;
  the sanitiser is no longer varied.
* C08: `list_iso` strings carry only an offset, so the reported zone is that offset; the zone label is compared by
  offset there.  pytz and dateutil know no transitions after 2037: instants end in 2036, and C17 uses dateutil itself
  as the oracle for its zones.
* C08: pandas and dateutil contradict each other about `dateutil` Pacific/Apia around 2011-12-30 (the day it skipped): local
  times are not judged there (instants are).  Seen once in a thousand runs, in a vcheck.
* C10: an "empty engine list" case asked the harness's own dictionary; pandas itself does not survive a numexpr that
  is half broken in a fresh interpreter (its own import fails), so such nodes break numexpr only after pandas is up.
* C11: a cut inside the CRLF of the last chunk, or after the last byte of data, delivers the whole reply – not a
  truncated one.  C11/C12: an error planned for an operation already consumed by a short read did not fire; such
  faults now count only when they strike.
* C12: NULs in the middle of a file and altered digits are not detectable in the format (no checksum) and are not part
  of the property; only prefixes, NUL tails and foreign documents are generated.
* C14: "no answer" belongs to C13 and is not judged in C14.
* C16: name-service stalls cannot be bounded by any Python caller and are excluded; a reply without any length that is
  cut after its end marker is complete by its own rules.
* C17: in the in-process runs the harness's standard output had close-on-exec set, so real interpreters lost it; local
  sunrise may use the offset of the instant or of the event.
* C18: standard error opened under the disk faults of standard output, a null sink that cannot show a message,
  KeyboardInterrupt (needs no message), and a too strict pattern for messages – all corrected in the judge.
* `gc.freeze()` hid nearly all functions from the discovery of code objects, so "interrupt at any line" never fired in
  C11–C16; discovery now unfreezes first and fails when it finds fewer than 20 functions.  (This was a missed-fault
  error, the opposite of a false alarm; fired-fault counts in the evidence are the guard against its kind.)

## 8. Limits

* Threads switch at line and bytecode boundaries of sunwhere; code inside numpy, pandas, xarray and numexpr runs
  without interruption.  Faults are not raised inside `finally`/`except` blocks or at `with`/`try` headers.
* pyarrow is not installed: `to_parquet`/`read_parquet` are a checksummed stand-in that writes through `open()` so
  disk faults apply to it.
* TLS is a stand-in; `openssl` is real only in the planted bugs' demonstrations.
* The simulated service answers in the Horizons text format with values determined by site and instant; it is our
  reading of the format, from the code's column slices and the public documentation.
* A clean batch is evidence, not proof; the counts say how much.

## 9. Running

```
python3 run_check.py C11                      # quick, VERIF_SEED or 1
python3 run_check.py C11 --tier thorough --seed 7
python3 run_check.py C11 --replay replays/C11-1-42.json
DST_REPO_SRC=/some/copy/src python3 run_check.py C11     # another tree
python3 tools/selfcheck.py                    # determinism of the machinery itself
python3 tools/bugtool.py validate ID …        # planted bugs: demo, tests, check
```

To add a property: `dst/props/cNN.py` with a class `Prop` (`gen`, `run`, `shrink`, `prepare`), an entry in
`tools/mkmeta_more.py`, `python3 tools/mkmeta.py`.
'''
import json, sys
sys.path.insert(0, '/verif')
P = json.load(open('/verif/dst/props.json'))
M = {c['property']: c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
EXTRA = {
'C01': ('The tests are single-threaded and a stress test would need luck; here two or more calls are really suspended in the middle of each other at a chosen line or bytecode.', 'four schedule policies (lockstep, random, PCT-like priorities with seeded change points, bursts); nested calls started at a seeded event of another call on the same thread; families of near-identical specifications so that shared workspaces, memos and globals collide; large batches now and then so that numexpr uses its block machinery; a quarter of the runs are duels: same-shape calls with other values almost in step'),
'C02': ('State left behind by one call only shows in a later one, often only if it is *nearly* the same.', 'histories over rounding-level neighbours, permutations, same shape and end points, reused and modified argument objects, recycled object identities, failing calls, up to 160 calls'),
'C03': ('The failing line is chosen, not hoped for.', '18 exception kinds (KeyboardInterrupt, MemoryError, OSError, FloatingPointError, …) at the n-th line or n-th call out of the package; then retry and follow-ups; a third of the runs sweep a call with eight faults spread over it, each with its retry'),
'C04': ('Aliasing needs a write at the right time between two reads.', 'in-place writes to every array, coordinate and attribute obtained and to every argument, interleaved with calls and reads in other threads'),
'C05': ('Read-order effects are combinatorial in some 25 quantities.', 'one to three threads reading one result in seeded orders with failing and interrupted reads'),
'C06': ('Temporary changes are invisible to a test that looks before and after.', '24 kinds of process-wide state read at every line event and 11 more between operations (see dst/procstate.py)'),
'C07': ('The machine and its clock are inputs nobody passes.', 'virtual clocks, jumps in mid-call, zones, locales, environment keys discovered by watching os.environ, entropy, CPU counts, hash seeds, -O'),
'C08': ('Zones, implementations, representations and transitions multiply.', 'clock readings around the offset changes of 21 zones in four zone implementations and 14 representations, judged against naive UTC and the zone databases (local times are not judged where pandas itself contradicts the zone: dateutil Pacific/Apia around 2011-12-30)'),
'C09': ('Delivery plans are histories.', 'chunking, reordering, duplication, loss, workers dying at the n-th line, redelivery through another entry point; 10³–10⁶-element batches'),
'C10': ('Which import fails, where and how often is a fault schedule.', 'any module of the package or dependency, 18 exception kinds, n-th statement, first k attempts; all pairs then asked'),
'C11': ('Crash points and torn writes cannot be reached by a unit test.', '22 exchange faults × disk fault at any operation × crash/power loss × interrupt at any line'),
'C12': ('Every byte is a crash point.', 'cuts at any byte, NUL tails, swapped or missing markers, error pages, half-replaced copies; read errors and short reads'),
'C13': ('Convergence is a property of histories of failures.', 'one to three faulty loads, then a quiet and an offline one; bounded liveness: the first load without faults must succeed'),
'C14': ('Confusion needs two sites that nearly agree.', 'sites derived from each other by rounding, swapping, mirroring, number type and notation; restarts and faults in between'),
'C15': ('What is sent is only visible to the other party.', 'the simulated service parses and judges every query; 16 representations of instants, 7 zones, around the line limit'),
'C16': ('Waiting forever cannot be tested by waiting.', 'stalls at any byte on a simulated clock; bound of 900 simulated seconds'),
'C17': ('The present instant cannot be passed in.', 'moments around transitions, clocks stepping between the readings the command makes'),
'C18': ('Which write fails is a fault schedule.', '12 kinds of standard output, short writes and errors at any write, 30 kinds of error at any library line, broken imports, three optimisation levels'),
'C28': ('No test pickles, copies or forks; what breaks on the way (an identity-keyed memo, a lock, a module-level name, an array shared by a copy) shows only on arrival or after a later write.', 'fleets of 2–10 processes; messages kept, delivered late, twice, out of order or never; forks between calls and at a chosen line of another thread\'s call; power loss at a chosen line'),
'C29': ('A leak is a property of unbounded histories; on error paths it also needs the error.', 'cycles of 1–4 operations repeated 72–2400 times with values, places and sizes that never recur; interrupts, refusals, network and disk faults in them'),
'C30': ('Two downloads at once are harmless in all but a few of some hundred thousand interleavings.', 'two to four real processes (or threads, stopped at every line) sharing a directory, each stopped before every disk operation and network event and released by a seeded schedule: one stalls while others run through, lockstep with an offset, bursts; kills at a chosen stop, faults of their own; file locks and thread locks are honoured without blocking the simulation'),
}
ps = [json.loads(l) for l in open('/verif/properties.jsonl')]
out = []
for q in ps:
    i = q['id']
    if i not in P: continue
    m = P[i]
    why, gen = EXTRA[i]
    out.append(f"### {i} {q['title']}\n\n*Method.* {M[i]['technique'][0].upper() + M[i]['technique'][1:]}.\n\n*Generated.* {gen}.\n\n"
               f"*A run.* {m['rule'][0].upper() + m['rule'][1:]}.\n\n*Decides.* {M[i]['level_note'][0].upper() + M[i]['level_note'][1:]}.\n\n"
               f"*Why tests cannot.* {why}\n\n*Bounds.* {m['runs']['quick']} runs or {m['cap_s']['quick']} s quick, {m['runs']['thorough']} runs or {m['cap_s']['thorough']} s thorough"
               + (f"; assumptions: {'; '.join(m['assumptions'])}" if m['assumptions'] else '') + '.\n')
doc = doc.replace('@@PROPS@@', '\n'.join(out))
fx = json.load(open('/verif/known_findings.json'))['fixed']
doc = doc.replace('@@FIXED@@', '\n'.join('* ' + ' '.join(x.replace('fixed: property=', '').split(' ')[:2]) + ': ' + ' '.join(x.replace('fixed: property=', '').split(' ')[2:]) for x in fx))
import os
b = []
try: table = json.load(open('/verif/tools/bugtable.json'))
except OSError: table = {}
for d in sorted(os.listdir('/verif/seeded')):
    me = json.load(open(f'/verif/seeded/{d}/meta.json'))
    b.append(f"| {d} | {me['property']} | {me['needs']} | {table.get(d, 'not yet run')} |")
doc = doc.replace('@@BUGS@@', '| bug | property | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(b))
open('/verif/DESIGN.md', 'w').write(doc)
