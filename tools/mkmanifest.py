import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
SCHED = ('Assumes the clang ThreadSanitizer instrumentation marks every shared access, sequentially consistent values plus a happens-before '
         'race detector as the memory model, and the reference model in the harness. ')
T = {
 'C01': ('model-based history generation', 'Random operation histories on the real library compared after every step with a reference model.'),
 'C02': ('schedule fuzzing with happens-before race detection', 'Random small programs x random/preemption-bounded/PCT schedules; deadlock, early return and data race oracles.'),
 'C03': ('schedule fuzzing with exactly-once oracle', 'Random attachments racing with completion under controlled schedules; each function must run exactly once after readiness.'),
 'C04': ('model-based history generation', 'Random continuation graphs compared with direct evaluation by the model.'),
 'C05': ('model-based histories and schedule fuzzing', 'Random graphs of functions returning futures, sequential and racing, against the model.'),
 'C06': ('model-based histories and schedule fuzzing', 'Random histories that drop, overwrite and discard write ends and posted tasks, against the model.'),
 'C07': ('model-based history generation', 'Random histories dropping read ends; model says exactly which functions die and which cancelers run.'),
 'C08': ('schedule fuzzing', 'Read ends dropped concurrently with fulfilment, scheduling and execution; at-most-once, canceler iff not stored, survivors correct.'),
 'C09': ('model-based histories and schedule fuzzing', 'detach in random histories with all other read ends dropped, against the model.'),
 'C10': ('schedule fuzzing with reference oracle', 'Random tuples, ranges and vectors completed in random orders from several threads.'),
 'C11': ('schedule fuzzing with reference oracle', 'Random tuples, ranges and vectors completed in random orders from several threads.'),
 'C12': ('model-based history generation', 'Random misuse in random histories; exact error codes and unchanged state by the model.'),
 'C13': ('model-based histories and schedule fuzzing', 'Instrumented executors (inline, queue, discarding) in random histories, and racing completions.'),
 'C14': ('model-based histories, schedule fuzzing, address sanitizer', 'Lifetime counters, exact leak accounting of every block, poisoned frees, in random histories and schedules.'),
 'C15': ('schedule fuzzing', 'Random pools, posters, nested posts and waiters under controlled schedules; exactly-once and drained oracles.'),
 'C16': ('schedule fuzzing', 'stop/wait/destructor racing with posting, attaching and running tasks; termination and abandonment oracles.'),
 'C17': ('schedule fuzzing', 'Random count-down splits over threads, waiters and immediate destruction, with race and use-after-free detection.'),
 'C18': ('schedule fuzzing in virtual time', 'Random timed waits against completions at random virtual times, spurious wake-ups included.'),
 'C19': ('model-based sequence generation, sanitizers', 'Random construct/move/swap/call sequences over many callable kinds against a model; second run under ASan+UBSan.'),
 'C20': ('program generation and schedule fuzzing', 'Random coroutine graphs (C++20) with sources completed before, later and concurrently; outcomes by a reference evaluator.'),
 'C21': ('fault injection in generated histories', 'Every generated operation may have its nth allocation or copy fail; the rest of the history is checked against the model.'),
 'C22': ('model-based histories with accounting allocators', 'Allocators with exact books in random histories; block/owner/size balance and no global heap use.'),
}
checks = []
for pid in sorted(CHECKS):
    tech, note = T[pid]
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 check.py {pid}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {pid}',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'property-based testing: ' + tech,
        'level': 'exploration',
        'level_note': note + ' Generated-case exploration, not exhaustive. ' + SCHED + 'Failures are shrunk to a replay file.',
    })
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the harnesses compile its sources with compiler instrumentation and a runtime of their own (rt/).'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
