"""Writes dst/props.json (what each check does) and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_CALL = ['sunwhere entry points, _core, Sunpos and all seven backends', 'numpy', 'pandas', 'xarray', 'numexpr',
             'CPython threads, locks and exception machinery']
STUB_CALL = ['thread scheduling (simulated: one thread runs at a time, the scenario decides who, at sys.monitoring '
             'line/bytecode events of the package)', 'threading.Lock/RLock as seen by the package (wrapper that hands '
             'the baton on when it would block)', 'time.sleep (simulated time)']
P = {}


def p(id, technique, rule, measure, note, runs=(2500, 60000), cap=(40, 2400), real=REAL_CALL, stub=STUB_CALL,
      assumptions=(), **kw):
    P[id] = dict(runs={'quick': 2 * runs[0], 'thorough': runs[1]}, cap_s={'quick': max(75, cap[0]), 'thorough': cap[1]},
                 level='exploration', rule=rule, measure=measure, real=list(real), stub=list(stub),
                 assumptions=list(assumptions), technique=technique, note=note, **kw)


A_SCHED = ('threads switch only at line and bytecode boundaries of the package; code inside numpy, pandas, xarray and '
           'numexpr runs without interruption')
p('C01', 'deterministic simulation: seeded thread scheduler (lockstep, random, PCT-like, burst) with nested calls, '
  'compared with each call alone in a forked fresh process',
  'run i draws 2-4 threads with 1-3 calls each plus reads of derived quantities from a family of near-identical call '
  'specifications, a schedule policy and nested calls; non-trivial: at least one context switch or nested call happened',
  'distinct (sequence of context switches with their code positions, call kinds, nested calls) hashes',
  'seeded search over interleavings at line and bytecode granularity; every answer is compared with the same call '
  'alone in a fresh process; a clean batch is evidence, not proof', assumptions=[A_SCHED])
p('C02', 'deterministic simulation: seeded call histories (aliased, recycled and modified arguments, failing calls, '
  'long histories) compared with each call alone in a forked fresh process',
  'run i draws a history of 4-160 calls over a family of near-identical specifications (same shape/end points, '
  'rounding-level differences, permutations, toggled options), with argument objects reused in place or recycled; '
  'non-trivial: at least three calls were made',
  'distinct (operation sequence, specification values) hashes',
  'seeded search over call histories against the fresh-process answer', stub=['none of the library; only argument '
  'object lifetimes are controlled'], runs=(2000, 60000))
p('C03', 'deterministic simulation with fault injection: exceptions raised at seeded points inside calls, then retry '
  'and follow-up calls compared with fresh-process answers',
  'run i draws 1-2 threads of calls and reads and 1-3 faults (kind, thread, operation, n-th line or n-th called '
  'function); non-trivial: at least one fault was raised inside a call',
  'distinct (fault kind and code position, switch trace, call kinds) hashes',
  'seeded search over fault points and kinds; after each fault the same call is retried and everything is compared '
  'with fresh-process answers', assumptions=[A_SCHED, 'faults are raised at line starts and call sites, not inside '
  'finally/except blocks nor on with/try headers'])
p('C04', 'deterministic simulation: seeded histories of calls, reads and in-place writes by the caller, interleaved '
  'across threads, with re-reads compared with fresh-process answers',
  'run i draws 1-2 threads of calls, reads, in-place writes to obtained arrays, coordinates and attributes and to '
  'argument objects; non-trivial: at least one array was really written',
  'distinct (operation, write kind, accessor) sequences with their switch traces',
  'seeded search over write/read histories; every later read and every stored value must equal the fresh-process '
  'answer', assumptions=['DatetimeIndex objects are immutable for callers (private buffers are not written)'])
p('C05', 'deterministic simulation: seeded interleavings of reads on one shared result with failing and interrupted '
  'reads, each compared with the same read alone in a forked fresh process',
  'run i shares one or two results between 1-3 threads that read seeded sequences of quantities with a seeded '
  'schedule and faults; non-trivial: at least three reads',
  'distinct (switch trace, fired faults, call kinds) hashes',
  'seeded search over read orders, interleavings and faults; each read alone in its own process is the oracle',
  assumptions=[A_SCHED])
exec(open(os.path.join(V, 'tools', 'mkmeta_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'mkmeta_more.py')) else None

json.dump({k: {x: y for x, y in v.items() if x not in ('technique', 'note')} for k, v in P.items()},
          open(os.path.join(V, 'dst', 'props.json'), 'w'), indent=1)

PURE = 'a pure function of its arguments: no schedule, clock, I/O, fault or multi-party behaviour it depends on; '
NA = {
    'C19': PURE + 'accuracy is a statement about formulae over inputs, so a simulator would only be input sampling in disguise (C08-C10, C17 and C18 do compare with references where a schedule, clock or fault is involved)',
    'C20': PURE + 'ranges and finiteness are decided by the input alone',
    'C21': PURE + 'argument validation is decided by the input alone (that a rejected call leaves no trace is covered by C02)',
    'C22': PURE + 'refraction is a formula of the zenith angle',
    'C23': PURE + 'sunrise/sunset geometry is a formula of date and place (its zone and DST behaviour is covered by C08 and C17, its read-order independence by C05)',
    'C24': PURE + 'airmass and irradiance are formulae of the zenith angle (their isolation is covered by C01-C05)',
    'C25': PURE + 'incidence is a formula of sun position and surface',
    'C26': PURE + 'true-solar-time conversions are formulae of instant and longitude (their history independence is covered by C02)',
    'C27': 'the chart command is disabled in the command line and is a pure rendering of positions; no schedule, clock or fault is involved',
}
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for q in props:
    i = q['id']
    if i in P:
        checks.append({'property': i, 'quick_cmd': f'python3 run_check.py {i} --tier quick',
                       'thorough_cmd': f'python3 run_check.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': P[i]['technique'],
                       'level': 'exploration', 'level_note': P[i]['note']})
na = [{'property': q['id'], 'reason': NA.get(q['id'], 'check under construction')} for q in props if q['id'] not in P]
json.dump({'version': 1, 'setup_cmd': 'python3 run_check.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are the interpreter (sys.monitoring), fork, patched module entry '
                    'points and an LD_PRELOAD clock/entropy shim built by the checks. VERIF_SEED decides every choice.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
