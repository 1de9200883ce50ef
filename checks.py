# property -> how it is decided: list of harness runs
MACHINE = ['machine_core.cpp', 'machine_cpy.cpp', 'machine_mov.cpp', 'machine_void.cpp', 'machine_ref.cpp']


def machine(profile, quick, mode='sched'):
    return {'src': MACHINE, 'defs': ['PROFILE=%d' % profile], 'mode': mode, 'quick': quick}


def conc(profile, quick):
    return {'src': ['conc.cpp'], 'defs': ['PROFILE=%d' % profile], 'mode': 'sched', 'quick': quick}


def pool(profile, quick):
    return {'src': ['pool.cpp'], 'defs': ['PROFILE=%d' % profile], 'mode': 'sched', 'quick': quick}


def combine(profile, quick):
    return [{'src': ['combine.cpp'], 'defs': ['PROFILE=%d' % profile, 'PART=%d' % k], 'mode': 'sched', 'quick': quick}
            for k in range(4)]


def zoo_types(profile, quick, parts=range(4)):
    return [{'src': ['zoo_types.cpp'], 'defs': ['PROFILE=%d' % profile, 'PART=%d' % k], 'mode': 'sched', 'quick': quick} for k in parts]


def zoo_calls(quick):
    return [{'src': ['zoo_calls.cpp'], 'defs': ['PART=%d' % k], 'mode': 'sched', 'quick': quick} for k in range(5)]


def bulk(profile, quick=1500):
    return {'src': ['bulk.cpp'], 'defs': ['PROFILE=%d' % profile], 'mode': 'asan0', 'quick': quick, 'cap': 60, 'tcap': 600}


def reent(profile, quick=200000):
    return {'src': ['reent.cpp'], 'defs': ['PROFILE=%d' % profile], 'mode': 'asan0', 'quick': quick}


CHECKS = {
    'C01': {'runs': [machine(1, 300000)] + zoo_types(1, 150000)},
    'C02': {'runs': [conc(2, 800000)]},
    'C03': {'runs': [conc(3, 500000), bulk(3), reent(3)]},
    'C04': {'runs': [machine(4, 250000)] + zoo_calls(100000) + [bulk(4)]},
    'C05': {'runs': [machine(5, 250000), conc(5, 400000)] + zoo_types(5, 80000, (0, 1, 3)) + [bulk(5)]},
    'C06': {'runs': [machine(6, 250000), conc(6, 400000), reent(6)]},
    'C07': {'runs': [machine(7, 250000), conc(8, 300000), bulk(7), reent(7, 300000)]},
    'C08': {'runs': [conc(8, 900000)]},
    'C09': {'runs': [machine(9, 250000), conc(9, 400000), reent(9)]},
    'C10': {'runs': combine(10, 250000) + [bulk(10)]},
    'C11': {'runs': combine(11, 250000) + [bulk(11)]},
    'C12': {'runs': [machine(12, 250000)]},
    'C13': {'runs': [machine(13, 250000), conc(13, 400000), reent(13)] + zoo_calls(100000)},
    'C14': {'runs': [machine(14, 250000), conc(14, 400000), machine(14, 50000, 'asan0'), bulk(14), reent(14)]},
    'C15': {'runs': [pool(15, 600000)] + [bulk(15)]},
    'C16': {'runs': [pool(16, 600000)] + [bulk(16)]},
    'C17': {'runs': [{'src': ['c17_latch.cpp'], 'mode': 'sched', 'quick': 1500000}, bulk(17, 20000)]},
    'C18': {'runs': [{'src': ['c18_timed.cpp'], 'mode': 'sched', 'quick': 400000}]},
    'C20': {'runs': [{'src': ['c20_coro.cpp'], 'mode': 'sched', 'std': 'c++20', 'quick': 500000}]},
    'C21': {'runs': [machine(21, 200000)] + [{'src': ['c21_faults.cpp'], 'mode': 'sched', 'std': v, 'quick': 600000} for v in ('c++17', 'c++20')]},
    'C22': {'runs': [{'src': ['c22_alloc.cpp'], 'mode': 'sched', 'std': v, 'quick': 800000} for v in ('c++17', 'c++20')]},
    'C19': {'runs': [{'src': ['c19_func.cpp'], 'mode': m, 'quick': q} for m, q in (('sched', 1500000), ('asan', 100000))]},
}
