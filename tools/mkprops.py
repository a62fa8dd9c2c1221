import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
                 "mechanism":[dict(zip(("name","where"),m)) for m in mech],
                 "observe_at":list(observe),"hook_needed":hook}})
U="src/sunwhere/usecases.py"; C="src/sunwhere/_core.py"; B="src/sunwhere/_base.py"; V="src/sunwhere/utils/validate.py"
J="src/sunwhere/utils/jpl_horizons.py"; D="src/sunwhere/utils/datetime.py"; CM="src/sunwhere/_cli/main.py"; CP="src/sunwhere/_cli/position.py"
L=["src/sunwhere/libspa/"+x for x in ("py_psa.py","ne_psa.py","py_soltrack.py","ne_soltrack.py","py_iqbal.py","ne_iqbal.py","ne_nrel.py")]
p("C01","Overlapping solar-position calls never affect one another",
  "When several threads evaluate solar positions (per-site, regular-grid or transect entry points, any algorithm and engine) or derive quantities from their own results at the same time, in any interleaving, each call returns exactly the values, labels and metadata, or the same error, that it returns when it is the only call made in a fresh process. The same holds when a call is started in the middle of another on the same thread (signal handler, finaliser, logging callback). No interleaving deadlocks.",
  ["schedules","programs"],"every interleaving, at line and bytecode granularity, of any mix of calls in several threads, and every point at which a nested call can start",
  "the suite makes one call at a time on one thread; a module-level scratch buffer, memo or 'current call' variable passes it and corrupts results only under particular interleavings",
  [U,C,B,V]+L,[("all intermediate state lives in locals of the call; module-level names are constants and functions","src/sunwhere/libspa/*.py, src/sunwhere/_core.py evaluate")],
  [("__ALGORITHMS__","shared backend table, read-only after import",C+":23")],["return values of sites/regular_grid/transect and accessors of the returned object"])
p("C02","An answer never depends on the calls made before it",
  "In one process, whatever sequence of calls came before - other times, places, algorithms, engines, refraction settings or entry points, failed calls, calls with reused or since-modified argument objects, any number of them - a call with valid arguments succeeds and returns exactly the values, labels and metadata that it returns as the first call of a fresh process, and a call with invalid ones raises the same error.",
  ["histories","programs"],"every finite history of earlier calls (successful and failing, with aliased, mutated or recycled argument objects) before any call",
  "the tests compare each call with pvlib at 2 degrees and never check a call against its own first-call answer; a stale memo, an id-keyed cache or a leaked default needs two specific calls in a specific order",
  [U,C,B,V,D]+L,[("every call recomputes from its arguments","src/sunwhere/_core.py evaluate, src/sunwhere/libspa/*.py sunpos")],
  (),["return values of sites/regular_grid/transect, derived accessors, utils.datetime conversions"])
p("C03","A failed or interrupted call is reported, leaves no trace, can be retried",
  "If a call (evaluation or derived quantity) is interrupted or fails part-way - Ctrl-C, out of memory, or a failing dependency, at any point - it either raises that error or still returns the fully correct answer, never a wrong or partial one, and an interrupt always propagates. Afterwards the same call, and every other call in the process, succeeds with the answer it gives in a fresh process, and nothing hangs.",
  ["fault_sequences","crash_points","histories"],"every point inside a call at which an exception can be raised, every kind of such exception, sequences of several faults, and every follow-up call",
  "no test injects a fault; half-filled caches, 'busy' flags and swallowed errors are invisible to successful calls",
  [U,C,B,V]+L,[("no state survives a call; exceptions are not caught inside the calculation","src/sunwhere/_core.py evaluate")],
  (),["exception or return value of the faulted call, return values of later calls"])
p("C04","Results and arguments are isolated from one another",
  "A call never modifies the arguments it is given, and what it returned never changes afterwards: not when the caller overwrites the arguments, not when the caller overwrites in place any array obtained from this or another result (values, coordinates or attributes), and not when more calls are made. Each read of a derived quantity after such writes gives the value it gave before.",
  ["histories","programs","schedules"],"every sequence of calls, reads and in-place writes to arguments and to arrays obtained from results, in any order and interleaved across threads",
  "the tests never write to an array they obtained, nor look at their arguments afterwards",
  [U,B,V],[("arguments are copied with np.array before use","src/sunwhere/usecases.py, src/sunwhere/_base.py __init__"),("accessors return derived arrays","src/sunwhere/_base.py")],
  [("Sunpos._eot/_ecf/_latitude/_longitude/_zenith/_azimuth/_declination","arrays held by a result",B+":__init__")],["accessors of the result object before and after writes; argument arrays before and after calls"])
p("C05","Reads of one result are repeatable in any order and interleaving",
  "For one result object, every attribute and derived quantity (angles, equation of time, true solar time, irradiance, airmass, sunrise, sunset, daylight length, incidence with any documented options) can be read and gives the same value each time, whatever other attributes were read before, failed, were interrupted, or are being read by other threads at the same time.",
  ["schedules","histories","fault_sequences"],"every order and interleaving of reads of one shared result, with failing and interrupted reads among them",
  "the tests read each attribute at most once, in one fixed order, on one thread",
  [B],[("accessors compute from the stored arrays and store nothing","src/sunwhere/_base.py")],(),["accessors of one shared Sunpos"])
p("C06","The library leaves process-wide state alone, even temporarily",
  "Importing the package and making calls or reading results changes no process-wide setting a host program or another thread can observe, neither afterwards nor while a call is in progress, also when the call fails or is interrupted: environment variables, working directory, time zone, locale, random generators, warning filters, floating-point error handling, numexpr thread count, pandas/xarray/numpy options, signal handlers, logging configuration, standard streams, threads, open files. It writes no files and prints nothing to standard output.",
  ["schedules","fault_sequences","histories"],"every moment another thread can look, during any call, after any sequence of successful, failing and interrupted calls",
  "no test looks at process-wide state; a temporary change is only visible to another thread in mid-call and a leaked one only after a fault",
  [U,C,B]+L,[("no global setters are called; numexpr and numpy are used with their current settings","src/sunwhere/libspa/*.py")],(),["process state sampled at the simulator's scheduling points"])
p("C07","Answers do not depend on the machine, its clock or its settings",
  "Evaluations and derived quantities for given arguments are the same whatever the host's wall clock reads (at import or during the call, including jumps), its time zone, locale, working directory, environment variables, hash seed, random-generator state, floating-point warning settings, numexpr or CPU thread count, or interpreter optimisation flag. Given the same arguments, any node of a fleet gives the same answer, or refuses them in the same way.",
  ["configurations","fault_sequences"],"every combination of host clock behaviour, time zone, locale, environment, hash seed, generator state, thread count and interpreter flags",
  "the tests run on one machine with one clock and default settings",
  [U,C,B,V]+L,[("no clock, environment, locale or generator is read in the calculation","src/sunwhere/_core.py, src/sunwhere/libspa/*.py")],(),["return values compared across simulated nodes"])
p("C08","One instant, one answer, whatever zone or form the times come in",
  "The same instants give the same sun position and the same UTC times and UTC sunrise/sunset whether they are given as naive UTC, or aware in any one zone and any zone implementation (pytz, zoneinfo, dateutil, fixed offset), as datetimes, numpy, pandas or strings, one by one or together, sorted or not. The reported local times are those instants in the zone given, the reported zone is that zone, and local sunrise/sunset equals UTC sunrise/sunset shifted by that zone's offset at the instant - including on both sides of and inside daylight-saving changes.",
  ["configurations","histories"],"every sequence of readings of a clock that runs, stalls or steps through zone transitions, on nodes with any zone and time representation",
  "the tests only use naive UTC times",
  [U,B,V],[("times converted with pd.to_datetime(..., utc=True)","src/sunwhere/usecases.py, src/sunwhere/utils/validate.py"),("zone kept and re-applied","src/sunwhere/_base.py __init__")],
  [("Sunpos._times/_times_utc/_timezone","the instants as given and in UTC",B+":__init__")],["times, times_utc, timezone, zenith, azimuth, true_solar_time, sunrise, sunset"])
p("C09","Batching, order, loss or duplication never changes an observation's answer",
  "The answer for one observation (instant, place, algorithm, engine, refraction) depends on that observation alone: splitting a batch into any chunks, reordering or duplicating its elements, losing (NaT, NaN) any of the others, retrying chunks after a worker died, or evaluating it through another entry point (per-site, regular-grid, transect) gives the same sun direction, declination, equation of time and distance factor to within rounding (0.001 degrees). A lost instant yields NaN exactly in its own places, and every value sits at its own time, latitude and longitude coordinates.",
  ["fault_sequences","histories","programs"],"every partition, permutation, duplication, loss and retry pattern of a batch across workers and entry points, for any batch size",
  "the tests evaluate a fixed small batch per entry point and compare only zenith and three scalars with pvlib at 2 degrees; azimuth, NaT, order and chunking are untested",
  [U,C]+L,[("element-wise formulae broadcast over times and locations","src/sunwhere/libspa/*.py"),("NaT mask and refill","src/sunwhere/_core.py evaluate")],(),["zenith, azimuth, declination, eot, ecf and their coordinates"])
p("C10","A missing or failing backend disables only itself and says so",
  "If some calculation backends cannot be imported (missing or broken optional dependency), the package still imports, every other algorithm/engine pair works with unchanged answers, and asking for an unavailable one raises ValueError saying the engine is missing - never another error and never silently another backend's answer. For every algorithm with both engines, failing over from one engine to the other changes the sun direction by no more than 0.005 degrees and the other quantities only by rounding.",
  ["fault_sequences","configurations"],"every subset of backend imports that fails, each at any point of its import, with any later request sequence",
  "the tests run with every dependency importable; both engines are only compared with pvlib at 2 degrees",
  [C,"src/sunwhere/utils/__init__.py"]+L,[("safe_import returns None for a backend that cannot be imported","src/sunwhere/utils/__init__.py safe_import"),("engine lookup","src/sunwhere/_core.py evaluate")],
  [("__ALGORITHMS__","backend table",C+":23")],["import of sunwhere, return value or error of sites/regular_grid/transect"])
p("C11","An ephemeris download is all-or-nothing",
  "Whatever happens to the network, the server, the disk or the process during a JPL ephemeris download, the output file afterwards either holds the complete ephemeris exactly as the server sent it or is exactly as it was before (absent, or its previous content), and the call returns normally only in the first case. Server error pages, truncated or garbled replies and disk-full conditions are reported as errors, never as a finished download.",
  ["fault_sequences","crash_points"],"every sequence of network, HTTP, disk and crash faults at every step of the download",
  "no test touches this module (it needs a network)",
  [J],[("get_jpl_ephemeris writes the response body to the output path",J+":get_jpl_ephemeris")],[("output file","downloaded ephemeris text","caller's path")],["output path after the call, return or exception"])
p("C12","A damaged ephemeris file is rejected, never read short or wrong",
  "Reading an ephemeris file that is truncated at any byte before the end of its end marker, holds an error page, or misses its start or end marker raises an error; a complete file yields every data line once, in order, with the instants and values in the file, as UTC. A partial table is never returned.",
  ["crash_points","fault_sequences"],"every truncation point and every torn or interrupted state of a file, and short reads",
  "no test touches this module",
  [J],[("both $$SOE and $$EOE lines are required",J+":read_jpl_ephemeris_file")],(),["returned DataFrame or exception"])
p("C13","Loading a year of ephemeris converges after any failure, then stays local",
  "Loading a year's ephemeris returns the complete, correct year for that site or raises, whatever network, disk and process failures occur. Once faults stop, a repeated load (also in a new process) succeeds with the complete correct data, whatever partial files earlier attempts left behind, and after a success further loads return the same data without contacting the server.",
  ["fault_sequences","crash_points","histories"],"every sequence of failed, crashed and successful load attempts with faults at any step",
  "no test touches this module; the interesting states only exist after a crash or fault in the middle of twelve downloads",
  [J],[("per-month text files, then one cached table",J+":load_jpl_ephemeris")],[("data/ directory","month files and cached year table",J+":load_jpl_ephemeris")],["returned DataFrame, requests seen by the server, files left"])
p("C14","The ephemeris cache never answers for another site or year",
  "In any sequence of ephemeris loads for different years and sites sharing one data directory, with failures and restarts in between, each successful load returns data of exactly the requested year and site, labelled with that site.",
  ["histories","crash_points"],"every sequence of loads with any sites and years, interrupted anywhere",
  "no test touches this module; one needs two loads with different sites against the same directory",
  [J],[("cache file names",J+":load_jpl_ephemeris")],[("data/ directory","cache keyed by file name",J+":load_jpl_ephemeris")],["returned DataFrame"])
p("C15","A download asks for exactly what was requested or refuses untouched",
  "A download sends the server one query for exactly the requested site (longitude and latitude to 6 decimals, elevation to 3), start, stop and step (whole minutes; naive times are UTC, aware ones are converted), and what it saves covers exactly that window. A request for more data lines than the service allows (90024) is refused with an error before any network traffic and without touching the output file or its directory, and one at the limit is accepted.",
  ["histories","fault_sequences"],"every request sequence against the simulated service, with retries after faults",
  "no test touches this module",
  [J],[("query options and line limit",J+":get_jpl_ephemeris")],(),["requests as parsed by the simulated server; files"])
p("C16","A stalled ephemeris server cannot hang a download",
  "If the ephemeris server stops responding at any point - while connecting, before answering, or in the middle of the reply - or keeps asking to come back later, a download ends with an error within a bounded time (15 simulated minutes) instead of waiting forever, and leaves no partial output.",
  ["fault_sequences","schedules"],"every point at which the peer can stall",
  "no test touches this module; a hang cannot be observed without a simulated clock",
  [J],[("request timeout",J+":get_jpl_ephemeris")],(),["simulated time until the call returns or raises"])
p("C17","'sunwhere at now' reports the true present instant on any machine",
  "The command line's default time 'now', on a machine with any time zone setting and at any moment its clock can show (including inside daylight-saving changes and while the clock is stepped between readings), shows the present instant expressed in the requested zone, and the sun position, equation of time, sunrise and sunset for that single instant at the given place. It does so for every valid place, also where the sun does not rise or set.",
  ["configurations","schedules"],"every clock reading and step, machine zone, requested zone and place",
  "no test touches the command line",
  [CP,CM],[("datetime.now() localised in the requested zone",CP+":calculate_position")],(),["printed table"])
p("C18","The command line's exit status tells whether the answer was delivered",
  "The position command exits 0 exactly when it delivered the complete position table to standard output; on any failure - bad argument, unknown algorithm or zone, unavailable backend, failing calculation, broken, full or wrongly encoded output - it exits non-zero, with a message and no position values unless the output itself is what failed. It never ends with success and an incomplete table.",
  ["fault_sequences","inputs"],"every fault during evaluation or output and every invalid argument",
  "no test touches the command line",
  [CM,CP],[("at() reports errors with exit code 1",CM+":at")],(),["exit status, standard output and error"])
p("C28","Results and calls survive the trip to another process",
  "A result, a value read from it, an error, and a call of an entry point can be sent to another process in the ordinary Python ways (pickled with any protocol from 2 up, copied, deep-copied, or inherited by a worker forked at any moment between calls, or while another thread is in mid-call with a numpy engine). What arrives - late, twice, out of order, in an interpreter with another hash seed or optimisation flag, after the sender died - reads exactly as it reads at home and never changes with what is done to the original; and the receiving or forked worker answers every call and read exactly as a fresh process does, without hanging.",
  ["histories","fault_sequences","configurations"],"every sequence of calls, reads, sends, copies, forks, deaths and deliveries among any number of processes",
  "the tests run in one process and never pickle, copy or fork",
  [U,C,B,V,D],[("results hold arrays, times and plain values only","src/sunwhere/_base.py __init__")],
  [("Sunpos instance attributes","everything a result knows",B+":__init__")],["accessors of results received by other processes; return values of calls made there"])
p("C29","Nothing accumulates in a process that runs for ever",
  "However many calls, reads, failed and interrupted calls, results sent and received, ephemeris downloads and table reads (complete, damaged, refused, stalled, failing on disk or interrupted) a process has behind it, once the caller has dropped what he was given the process holds no more than before: memory, open connections and descriptors, threads, child processes and temporary files stay bounded, independent of the length of the history.",
  ["histories","fault_sequences"],"every history of calls and downloads, of any length, with failures and interrupts at any point",
  "the tests make each call once; a memo without bound, a list of past arguments, a connection not closed on an error path or a temporary file left behind only shows after thousands of calls or after a fault",
  [U,C,B,J,V,D]+L,[("no state survives a call","src/sunwhere/_core.py evaluate"),("connections and files are closed on every path",J+":get_jpl_ephemeris")],
  (),["memory blocks and bytes, descriptors, threads, children and files between rounds of calls"])
p("C30","Overlapping ephemeris downloads and loads never harm one another",
  "Any number of processes and threads that download ephemerides to the same file or next to each other, read such a file, or load years through one data directory at the same time, in any interleaving, also when some of them fail, are interrupted or are killed at any point: each of the others ends exactly as it would alone (with the complete and right file or table), none fails or waits for ever because of another, the output file is at every moment what it was before or one complete reply, a complete file can be read at any moment, and loads afterwards succeed, also offline.",
  ["schedules","fault_sequences","crash_points"],"every number of overlapping downloads and loads, every interleaving of their steps, every failure and kill of some of them",
  "the tests never run two downloads or loads at once; a shared temporary name, a file removed while another process is about to read it, or a check followed by an action shows only in one interleaving of a few steps",
  [J],[("temporary files of their own, renamed into place",J+":get_jpl_ephemeris"),("monthly files are removed only after the whole year is in place, and others cope with that",J+":load_jpl_ephemeris")],
  (),["outcome of every actor","content of the output file at every stop","tables returned","later loads"])
NA=[
("C19","Each algorithm meets its stated accuracy","For every instant in an algorithm's validity period and every place, its sun direction, declination, equation of time and distance factor agree with an independent high-accuracy ephemeris within the algorithm's documented uncertainty.",["inputs"],"every instant and place","tests sample a handful of inputs at 2 degrees and never check azimuth",L),
("C20","Outputs are always finite and physically in range","For every valid instant and place, zenith is in [0, 180], azimuth in [-180, 180], declination within the obliquity, the distance factor within the orbit's range, and nothing is NaN or infinite except where an instant was missing.",["inputs"],"every instant and place including poles, zenith and nadir passes","a measure-zero set of inputs (sun exactly overhead) is never sampled",L+[B]),
("C21","Invalid input is rejected with ValueError, valid input never is","Latitudes outside [-90, 90], longitudes outside [-180, 180), mismatched shapes, unknown algorithms, engines and options raise an error before anything is computed; every documented form of valid input is accepted.",["inputs"],"every argument tuple","tests pass valid input only",[V,U,C]),
("C22","Refraction only lifts the sun, near the horizon","Enabling refraction never increases zenith and changes it by at most about 0.7 degrees, never changes azimuth, and is off when disabled.",["inputs"],"every sun position","not tested",L),
("C23","Sunrise, sunset and daylight length are consistent","Sunrise precedes and sunset follows local solar noon symmetrically, their difference is the daylight length, polar day and night give no time, and angle, solar, UTC and local forms agree.",["inputs"],"every day and latitude","not tested",[B]),
("C24","Airmass and extraterrestrial irradiance follow their formulae","Airmass is at least 1, increases with zenith, is undefined below the horizon; irradiance is zero below the horizon and equals solar constant times distance factor times cosine of zenith, with the documented corrections.",["inputs"],"every sun position and option","not tested",[B]),
("C25","Incidence cosine is the sun-surface angle","The incidence cosine equals the dot product of sun direction and surface normal for every slope and orientation.",["inputs"],"every sun position and surface","not tested",[B]),
("C26","True solar time and UTC conversions are inverse","Converting UTC to true solar time and back returns the original instant within a second, and agrees with the result object's true solar time.",["inputs"],"every instant and longitude","not tested",[D,B]),
("C27","Solar chart shows the positions the library computes","The solar chart's curves and labels are the library's positions for the given place and date.",["inputs"],"every place and date","not tested",["src/sunwhere/_cli/solar_chart.py"]),
]
for i,t,s,o,q,w,f in NA:
    p(i,t,s,o,q,w,f,[("formulae",f[0])])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
