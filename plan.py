"""Which worlds decide which property, and how the evidence describes them."""

COMMON_ASSUMPTIONS = [
    'x86-64, gcc 13, little endian; -DNDEBUG as in the release build (assertions of the library are off)',
    'seeded search, not enumeration: a seed range is explored, absence of violations is evidence, not proof',
]
RW_REAL = 'whole library src/*.cxx and src/1Hippeus/*.cxx and its headers, compiled from the working tree'
RW_STUB = ['heap (malloc/realloc/new): seeded simulated heap with red zones, freed-block fill, leak ledger and injected failures',
           'clock_gettime/clock_getres: simulated clock']
RW_RULE = ('One evaluation is one simulated life of one or more tuples: schema, capacities, operations, values, fault '
           'points drawn by the seeded scheduler; every step is judged against a reference map and an independent '
           'decoder of the raw bytes.')
RW_STATE = 'model content hash x layout shape (slots, gaps, free space class) x last operation'


def rw(**kw):
    d = dict(worlds=[('rw', 'plain', 1)], rule=RW_RULE, state=RW_STATE, real=[RW_REAL], stubs=RW_STUB)
    d.update(kw)
    return d


def thr(**kw):
    d = dict(worlds=[('thr', 'thr', 1)], real=[RW_REAL + ', with every memory access instrumented as a scheduling point'],
             stubs=RW_STUB + ['thread scheduler: real pthreads, one running at a time, switched at memory accesses by the seed',
                              'buffer allocators: default one plus simulated ones with ledgers'],
             state='hash of the whole schedule and operation history (distinct interleavings)',
             rule='One evaluation is one interleaving of 2 to 4 threads, switched at single memory accesses; accesses are '
                  'checked against released memory and by vector clocks, views and records at every switch.')
    d.update(kw)
    return d


PLAN = {
    'C01': rw(), 'C02': rw(), 'C03': rw(), 'C04': rw(), 'C05': rw(), 'C14': rw(), 'C15': rw(),
    'C06': dict(worlds=[('disk', 'plain', 1)], state='content hash x take form x reopen mode x crash outcome', real=[RW_REAL],
                stubs=RW_STUB + ['storage: sector-wise simulated disk with crash points, torn, lost, stale and truncated writes'],
                rule='One evaluation is one life of a tuple with take/store/crash/reopen cycles; every reopened image is compared '
                     'with the content at the time of taking and every proper prefix must be rejected.'),
    'C07': dict(worlds=[('disk', 'asan', 1)], state='kinds of damage x verdict x layout shape', real=[RW_REAL],
                stubs=RW_STUB + ['storage: simulated disk returning damaged images in exactly sized, poisoned memory'],
                rule='One evaluation is one image damaged by a seeded sequence of storage faults, offered to every validating entry '
                     'point, then walked by every reader if accepted, under AddressSanitizer.'),
    'C10': dict(worlds=[('own', 'plain', 3), ('own', 'asan', 1)], state='kinds and emptiness of the handles in the pool x reference counts',
                real=[RW_REAL], stubs=RW_STUB + ['buffer allocators: default one plus three simulated ones with ledgers and slack'],
                rule='One evaluation is one life of a pool of up to 6 handles of all kinds over 4 allocators with memory requests '
                     'failing at random points; contents after every step, ledgers and heap at the end.'),
    'C11': dict(worlds=[('legacy', 'plain', 3), ('legacy', 'asan', 1)], state='hash of the content of the multimap', real=[RW_REAL],
                stubs=RW_STUB,
                rule='One evaluation is one life of up to two tuples driven through the C interface only, on a thread of its own, with '
                     'failing memory requests, refused arguments and damaged images; every step is compared with a reference multimap.'),
    'C13': dict(worlds=[('schema', 'plain', 3), ('schema', 'asan', 1)], state='hash of the set of definitions in the schema', real=[RW_REAL],
                stubs=RW_STUB,
                rule='One evaluation is one life of two schemas: seeded definitions, imports and merges, valid, malformed and interrupted by '
                     'failing memory requests; names, tokens, places, navigation and initial values compared with a reference after each.'),
    'C16': dict(worlds=[('guard', 'plain', 3), ('guard', 'asan', 1)], state='set of live buffers (sizes, owners) x tick counter', real=[RW_REAL],
                stubs=RW_STUB + ['tick counter salting the guards (hook): stuck, crawling, backward, adversarial values',
                                 'buffer allocators: default one plus three simulated ones with ledgers'],
                rule='One evaluation is one life of up to 5 guarded buffers: legitimate use to the very ends, shared owners, release, and stray '
                     'writes to guard words; every check is compared with what was really done to the buffer.'),
    'C17': dict(worlds=[('scan', 'plain', 1)], state='hash of the transcript of a history on a machine',
                real=[RW_REAL + ', loaded as a module and booted anew on every simulated machine'],
                stubs=RW_STUB + ['processor identification (CPUID, XGETBV; hook): any subset of the features of the real processor, with or '
                                 'without support of the operating system; floating point modes of the caller'],
                rule='One evaluation is one history driven on 2 or 3 simulated processors with equal transcripts required, plus direct probes '
                     'of every search routine with the index against unmapped pages and surrounded by the key.'),
    'C18': dict(worlds=[('clock', 'plain', 1)], state='kind of call x returned time', real=[RW_REAL + ', loaded as a module and booted anew on every simulated machine'],
                stubs=RW_STUB, time='sum of the distances the simulated clock was moved',
                rule='One evaluation is one boot on a machine with a given coarse clock (any resolution or none) and up to 44 time queries '
                     'between clock steps, jumps in both directions and refused clock calls, each compared with the simulated clock.'),
    'C20': dict(worlds=[('stat', 'size', 1)], state='contents of the fixed and ordinary fields', real=[RW_REAL, 'the library headers compiled into the world with calls kept as calls'], stubs=RW_STUB,
                rule='One evaluation is one pair of twin tuples, one driven by compile-time and one by run-time tokens, through 3 to 43 operations with full '
                     'buffers and failing allocations; results, errors and contents are compared after every operation.'),
    'C08': thr(), 'C09': thr(),
    'C12': thr(real=['src/compat_*.cxx and everything below, compiled from the working tree with every memory access instrumented']),
}

TECH = {
    'C01': 'seeded simulation of write histories, refinement against a reference map after every step',
    'C02': 'seeded simulation, independent layout decoder and simulated heap as invariants after every step',
    'C03': 'seeded simulation with injected refusals and allocation failures, state compared around each failed call',
    'C04': 'seeded simulation of growth with allocation failures at random requests and retry after the fault',
    'C05': 'seeded simulation of maintenance calls with allocation failures inside them, content compared',
    'C06': 'seeded simulation of take/store/crash/reopen cycles on a faulty simulated disk, content compared',
    'C07': 'seeded simulation of storage corruption, every validating entry point and reader under AddressSanitizer',
    'C08': 'seeded scheduler over real threads at memory-access granularity; allocator ledger, use-after-free and race oracles',
    'C09': 'seeded scheduler over real threads; bytes and values of every held read-only tuple compared at every switch',
    'C10': 'seeded simulation of ownership histories with injected allocation failures; allocator ledgers and contents compared',
    'C11': 'seeded simulation of C-interface histories with injected failures, refinement against a reference multimap',
    'C12': 'seeded scheduler over real threads; recorded error compared with the thread own last failure',
    'C13': 'seeded simulation of definition histories with malformed definitions and failing memory requests against a reference schema',
    'C14': 'seeded simulation of presence/null/erase histories against a reference map',
    'C16': 'seeded simulation of buffer lives with adversarial tick values and injected stray writes, every verdict compared with the damage done',
    'C17': 'seeded simulation of boots on different processors, transcripts of the same history compared; searches probed against unmapped pages',
    'C18': 'seeded simulation of clock behaviour (steps, jumps, coarse resolutions, refused calls), every reading compared with the simulated clock',
    'C20': 'seeded lockstep simulation of twins driven by compile-time and run-time tokens, with allocation and space faults, against a reference model',
    'C15': 'seeded simulation of collection histories, iteration compared with a reference multiset',
}
NOTE = 'Random schedules and faults from a seed over the real library code; bounded run length; replayable.'

NOT_APPLICABLE = {
    'C19': 'a pure function of one number: no schedule, time, I/O, allocation or fault can influence it, so '
           'deterministic simulation has nothing to decide (it would be plain input fuzzing)',
}
