# Per property: how its check runs, and what its evidence says about the cases.
PROPS = {
    'C01': {
        'rule': 'Workload: 1-3 series of 0-200 (rarely 66000) items, 1-4 threads doing 1-5 parallel executions on 1-40 (rarely 550) cores with six kinds of item-wise jobs, some nested, with delays; '
                'faults: preemptions, delays, spurious wake-ups, clock jumps.',
    },
    'C02': {
        'rule': 'Workload: 1-3 parallel executions on 1-20 (rarely 110) cores with 0-4 failing items each (standard and foreign exceptions, results of wrong count or item size), healthy or failing jobs delayed; '
                'faults: one or all later allocations fail at a chosen point in any thread, thread starts fail, preemptions. Every faulted call is checked for its outcome, running jobs, input, leaks.',
    },
    'C03': {
        'rule': 'Workload: 1-4 parallel executions on 1-70 (rarely 550) cores, nested or from up to three threads, whose jobs wait for each other (all for all, chains in either order, polling), or sleep; '
                'faults: delays, preemptions, spurious wake-ups, failing jobs, 0-64 reported processors.',
    },
    'C04': {
        'extra': ['ops_numeric.cpp', 'ops_sub.cpp'],
        'rule': 'Workload: 2-15 calls of 51 numeric operations (variants with fitting and unfitting arguments) by 1-5 threads on 1-2 shared families of 16 series, or on private copies with changed '
                'values at a fixed place; each result is compared with the same call alone (before, after, in another order, on copies, or in a process of its own); faults: preemptions.',
    },
    'C05': {
        'extra': ['ops_numeric.cpp', 'ops_sub.cpp', 'ops_func.cpp'],
        'rule': 'Workload: 2-15 calls of 48 functional and collection operations (variants with fitting and unfitting arguments, callbacks that yield, throw or call operations) by 1-5 threads on '
                'shared families of 16 series or on private copies; each result is compared with the same call alone (before, after, in another order, on copies, or in a process of its own).',
    },
    'C06': {
        'extra': ['ops_numeric.cpp', 'ops_sub.cpp', 'frame.cpp'],
        'rule': 'Workload: 2-17 queries of 12 kinds (look-ups, presence, names, list, test and retrieve attributes, copies, managers of their own) by 1-5 threads on one dataframe of up to 10 series '
                'through 1-3 managers with up to 8 decomposers each; each answer is compared with the same query alone (before, after, in another order, on a copy, or in a process of its own); '
                'faults: preemptions, user-defined attributes that throw.',
    },
    'C07': {
        'rule': 'Workload: 2-60 steps of 30 kinds (copy construction, assignment, self-assignment, clone, return, swap, storing in and copying out of dataframes and collections, copies of those, '
                'modifications through every mutator) by 1-5 threads, each with four series, a dataframe and a collection of its own, all copied from shared sources, and series handed over under a lock; '
                'after every step everything a thread owns is compared with plain arrays; faults: preemptions, a failing allocation in 12 % of the steps.',
    },
    'C08': {
        'extra': ['ops_numeric.cpp', 'ops_sub.cpp', 'ops_func.cpp', 'frame.cpp'],
        'rule': 'Workload: 1-6 calls of 51 numeric, 48 functional operations and 12 dataframe queries on up to three threads, each failed 1-8 times; faults: the k-th of its allocations, or all from '
                'the k-th on, fail, or its callback throws at the k-th call (five kinds of exception). Checked: outcome, inputs, leaks (single threaded runs), the call without fault, all calls at the end.',
    },
    'C09': {
        'rule': 'Workload: 1-120 steps of 14 kinds (assignment, reCount, setValue, setScalar, set, reads, constructions) on three series per thread, 40 % with an unacceptable index, item size or enormous count; '
                'faults: one or all later allocations fail in 35 % of the steps. After every step all series are compared with plain arrays holding the successful modifications.',
    },
    'C10': {
        'rule': 'Workload: 1-100 steps of 15 kinds (add, set, create, del, clear, setCount, references, own series, copies, look-ups) on one dataframe per thread with eight names; '
                'faults: one or all later allocations fail in 40 % of the steps, enormous counts. After every step the dataframe is compared with a plain map of the successful modifications.',
    },
    'C11': {
        'rule': 'Workload: 2-120 steps (rarely up to 17000 further calls with series of their own; calls, clearing, copying, assigning, moving) on 1-3 memoized functions (function object, function pointer, recursive, composed) with up to 64 look-alike series '
                '(one bit, signed zero, NaN payload, item size, count, dimension apart); faults: one or all later allocations fail in 25 % of the calls, the function throws (five kinds) in 12 %. '
                'Every result is compared with the function itself, every evaluation with the set of remembered series.',
    },
    'C12': {
        'rule': 'Workload: 2-43 steps (calls, clearing, copying, assigning) by 2-4 threads on two shared memoized functions (plain, recursive, calling each other; quick, yielding or slow) with up to 32 '
                'look-alike series; faults: preemptions, delays, the function throws on one thread, allocations of one thread fail. Every call is compared with the function itself and with the failures of its own thread.',
    },
    'C13': {
        'rule': 'Workload: 2-45 seeded and unseeded requests by 1-4 threads with ten seeds, up to 2000 (rarely 66000) items of item size 1-9 and 14 pairs of bounds (down to neighbouring numbers, up to overflow), one of them also '
                'in a process of its own; faults: preemptions, the entropy source repeats itself, fails from the start or from some draw on, allocations fail.',
    },
    'C14': {
        'rule': 'Workload: 1-27 insertions of series, collections of series, lists of numbers and of strings in eight formats by 1-4 threads, each into a stream of its own, of shared data; faults: the stream refuses '
                'characters from any position on or once, its buffer throws, its flush fails, it failed before, it is set up to throw, allocations fail, preemptions inside the stream buffer. '
                'All streams (also cout, cerr and clog) are recorded. Then up to 8 prints and dumps: alone, and those to cout beside those to cerr and another stream, which may refuse characters.',
    },
    'C15': {
        'extra': ['ops_numeric.cpp', 'ops_sub.cpp', 'frame.cpp'],
        'rule': 'Workload: 4-94 steps on up to two dataframes of up to 10 series with two managers each: changes (values, shapes, series, counts, whole dataframes, a new one at the same address), decomposers added '
                'or cleared, and queries; faults: one or all later allocations of a query or a change fail, user-defined attributes throw. Every answer is compared with a new manager on a rebuilt dataframe, one also '
                'with the same query alone in a process of its own, all listed attributes with the plain content.',
    },
    'C16': {
        'extra': ['ops_numeric.cpp', 'ops_sub.cpp', 'frame.cpp'],
        'rule': 'Workload: 3-93 steps (managers created empty or with decomposers, adding, clearing, querying, destroying, copying where that is possible) on three managers per thread, with observed decomposers of two '
                'sizes, user-defined ones that own an observed callback, and those of the library; faults: one or all later allocations fail, decomposers throw when queried, the dataframe goes first. Every construction, '
                'use and destruction is checked against who owns the decomposer, and the whole history for blocks left behind.',
    },
    'C17': {
        'rule': 'Workload: 1-23 traversals of 45 kinds over shared series (one, two or three; fitting and unfitting counts and item sizes) by 1-3 threads with callbacks of their own, some traversing the series '
                'themselves; faults: the callback throws at any call (five kinds), an allocation fails, preemptions inside callbacks. Every call, its thread, and the result are compared with a plain loop.',
    },
    'C18': {
        'rule': 'Workload: 3-80 steps (making, running, copying, dropping) by 1-4 threads on three shared and four own pipelines each, of 26 kinds (pipelines, compositions, both nested, made operations), made from temporaries '
                'or from stages that are destroyed or changed afterwards, and pipe on the spot; faults: a stage throws at any call (five kinds), allocations fail while making, copying or running, preemptions inside stages. '
                'Every call of a stage, its input, the result and the lifetime of all stages are compared with plain loops.',
    },
    'C19': {
        'rule': 'Workload: 1-124 steps of 23 kinds (making, copying, in-place operations also with itself and in a row, reads, products) by 1-4 threads on three vectors and matrices of their own and three shared ones; '
                'faults: one or all later allocations fail in 30 % of the steps, preemptions. After every step all of them are compared bit for bit with plain arrays, results with plain arithmetic up to rounding, '
                'and changed vectors with the same operation on copies.',
    },
    'C20': {
        'extra': ['ops_numeric.cpp', 'ops_sub.cpp', 'frame.cpp'],
        'rule': 'Workload: a history of 1-4 calls of 12 kinds (numeric and functional operations, queries, parallel executions, memoized functions, output, random series, histories of series, dataframes, managers, '
                'vectors and matrices, pipelines) by 1-3 threads, with objects of its own, repeated 32 to 256 times; faults: the same call fails in every repetition because one or all later allocations fail, a callback '
                'throws or no thread is to be had, and preemptions. Every call of every repetition is compared with the first one, and the live memory after 2, 4, 8, 16, 32 ... repetitions must not grow every time.',
    },
}
