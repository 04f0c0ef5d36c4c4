"""Budgets and descriptions of the checks: (number of runs, time limit in s)."""
COMMON_REAL = ['all of src/diffpy (calculators, evaluators, structures, tables, serialization, event clock), unmodified',
               'libstdc++, Boost.Serialization, GSL, libObjCryst']
COMMON_STUB = ['user-supplied components (SimPeriodic, SimJeong, SimGauss, SimSFT, SimRadii, SimScale, SimBaseline, SimDirect) are '
               'thin subclasses of library classes with fault and scheduling points']
DET = 'one seed is one execution: fixed address layout, fresh forked process per run, memory pattern set by the seed'
TOL = 'results are compared with relative tolerance 1e-8 of the largest magnitude seen in the history'
TIES = 'ties of bond distances that hold up to rounding only are not generated'
PURE = ('a pure function of its arguments: no history, schedule, clock, I/O or fault can influence it, so there is nothing '
        'for a simulator to schedule or inject; ')
NOT_APPLICABLE = {
    'C21': PURE + 'input coverage of closed formulas belongs to property-based testing or proof',
}
CHECKS = {
    'C01': {
        'quick': (24000, 150), 'thorough': (400000, 800),
        'technique': 'seeded histories, fast updates against full summation of the same history',
        'note': 'seeded search over histories of several calculators and structures; no exhaustive claim',
        'rule': 'random histories of structure edits, configuration, masks, filters and evaluator switches with evaluations in '
                'between; each history is run with fast updates and again with full summation and all outcomes compared; '
                'non-trivial when at least one compared evaluation used the fast update',
        'assumptions': [DET, TOL, 'full summation (BASIC evaluator) over the same history is the reference', TIES],
    },
    'C02': {
        'quick': (24000, 150), 'thorough': (400000, 800),
        'technique': 'injected callback and allocation failures at seeded points, compared with the failure-free twin history',
        'note': 'the fault point inside an operation is drawn from all points counted in a clean pass of the same operation; '
                'seeded search, no exhaustive claim',
        'rule': 'random histories where some operations fail at a chosen callback or allocation and are then repeated or '
                'abandoned; all later outcomes are compared with the same history without failures; non-trivial when at '
                'least one injected failure fired',
        'assumptions': [DET, TOL, TIES, 'formatting by standard streams may legally ignore a failed allocation'],
    },
    'C05': {
        'quick': (24000, 150), 'thorough': (400000, 800),
        'technique': 'simulated process crash and restart from snapshots with skewed event clocks, compared with a process '
                     'that never stops',
        'note': 'crash points are between operations, where a snapshot can be taken; each restart is a new forked process '
                'whose event clock is behind, equal, ahead, in a later epoch or next to its carry; seeded search',
        'rule': 'random histories of all serializable calculators cut at random places; every cut saves all objects, ends the '
                'process and goes on in a new one; non-trivial when results were compared after a restart',
        'assumptions': [DET, TOL, TIES, 'snapshots are written and read by the same build of the library',
                        'the saving process completes its snapshot; truncated snapshots are only required to be refused'],
        'time': 'event-clock skew up to one epoch (2^63 ticks) per restart',
    },
    'C03': {
        'quick': (24000, 150), 'thorough': (400000, 800),
        'technique': 'simulated master and workers over a lossy network with crashes, compared with a serial calculator',
        'note': 'event-queue network with loss, duplication, delay and reordering, worker crash and restart, stalls, failing '
                'workers; faults stop after a bounded time and the merge must then finish; seeded search',
        'rule': 'random histories with rounds of a parallel evaluation by 1 to many workers that persist between rounds; each '
                'merged result is compared with the serial one; non-trivial when a complete merge was compared',
        'assumptions': [DET, TOL, TIES, 'each part is merged at most once by the master, as the interface demands; duplicates '
                        'are filtered by the part number in the simulated protocol'],
        'time': 'simulated.ms counter: event-queue time of the simulated network',
    },
    'C04': {
        'quick': (20000, 150), 'thorough': (400000, 800),
        'technique': 'simulated master that receives damaged, foreign and excess messages, compared with a serial calculator',
        'note': 'truncated, oversized, foreign and surplus messages and allocation failures inside the merge; damaged messages '
                'of valid form and size are indistinguishable and not generated; seeded search',
        'rule': 'random histories with merge rounds where bad messages come between the right ones; refused messages must raise '
                'an error and change nothing; non-trivial when at least one bad message was delivered',
        'assumptions': [DET, TOL, TIES],
        'time': 'simulated.ms counter: event-queue time of the simulated network',
    },
    'C06': {
        'quick': (16000, 150), 'thorough': (400000, 800),
        'technique': 'seeded histories of look-ups with damaged files, failing opens, reads and allocations against an '
                     'independent reading of the data and an untouched process',
        'note': 'open, read and allocation faults at seeded points of the loading, 12 states of each file in two directories, '
                'changes of the data directory; ends with a check of the tables in the same process once faults are gone; '
                'seeded search',
        'rule': 'random look-ups of all table kinds, also by PDF and bond-valence calculators, between faults and changes of '
                'files; each gives the true value or raises, and must not raise without a fault; non-trivial when a look-up '
                'raised because of a fault',
        'states': 'kind of look-up, state of its file, data directory, loaded or not, outcome',
        'assumptions': [DET, 'damage that leaves a complete, well-formed table with other numbers or symbols cannot be '
                        'recognized and is not generated', 'tables that were loaded stay loaded'],
        'real': ['scatteringfactordata, BVParametersTable, all scattering factor tables, PDFCalculator, BVSCalculator, '
                 'runtimepath, std::ifstream of libstdc++'],
        'stub': ['open and read system calls of the data files (pass through unless a fault is due)', 'operator new'],
    },
    'C07': {
        'quick': (60000, 150), 'thorough': (1500000, 800),
        'technique': 'seeded histories of environment and file-system changes with failing system calls against a resolution '
                     'of the path from scratch',
        'note': 'runtimepath.cpp is built as a separate shared library and loaded from four simulated installations, so that '
                'its own location counts; stat, realpath and allocation faults; seeded search',
        'rule': 'random changes of the override (many spellings), directories, links, files and the current directory between '
                'calls; each path is compared with one resolved anew; non-trivial when the override was resolved among '
                'several calls',
        'states': 'layout of the installation, override and its spelling, outcome, fault',
        'assumptions': [DET, 'the directory found relative to the library may be kept once it was resolved',
                        'if the installed directory cannot be accessed, the one in the source tree may be used'],
        'real': ['runtimepath.cpp in its own shared library, the real file system in a scratch directory, glibc realpath'],
        'stub': ['stat and realpath calls (pass through unless a fault is due)', 'operator new'],
    },
    'C14': {
        'quick': (24000, 150), 'thorough': (400000, 800),
        'technique': 'seeded histories with failures, merges and restarts, each result compared with a freshly built calculator',
        'note': 'the fresh calculator gets the current configuration and structure only; seeded search',
        'rule': 'random histories of configuration, structures, masks, injected failures and merges; after evaluations the used '
                'calculator is compared with a new one; non-trivial when at least one comparison was made',
        'assumptions': [DET, TOL, TIES, 'the range hysteresis of the Debye PDF calculator (less than 50 steps) and the permanent '
                        'reduction of its too large custom Q-step are intended'],
    },
    'C08': {
        'quick': (24000, 150), 'thorough': (400000, 800),
        'technique': 'several simulated processes with own event counters exchange snapshots; clock order compared with the '
                     'order of events in the history',
        'note': 'process start, kill, skewed counters, a counter next to its carry, snapshots loaded in any process, truncated '
                'snapshots; seeded search',
        'rule': 'random histories of clicks, updates, copies, saves and restores in several processes; all pairs of clocks are '
                'compared with the recorded order of events after every operation; non-trivial when clocks were compared after '
                'a restore',
        'assumptions': [DET, 'clocks restored from different snapshots that were never together have no defined order'],
        'time': 'event-clock skew up to several epochs (2^63 ticks each)',
        'real': ['EventTicker and its serialization, Boost.Serialization'],
        'stub': ['none; every simulated process is a forked process driven through pipes in the order of the history'],
    },
    'C10': {
        'quick': (24000, 150), 'thorough': (400000, 800),
        'technique': 'seeded histories of mask rules, structure changes, failures and restarts against a last-matching-rule '
                     'model and a sum over single pairs',
        'note': 'reference model of the masks; results compared with calculators that sum only the allowed pairs; seeded search',
        'rule': 'random sequences of mask operations with evaluations, injected failures and snapshots in between; reported '
                'masks and results are compared with the model; non-trivial when results were compared under a mask',
        'assumptions': [DET, TOL, TIES],
    },
    'C12': {
        'quick': (20000, 150), 'thorough': (400000, 800),
        'technique': 'seeded histories of table operations with injected failures and restarts against map models over the '
                     'standard data',
        'note': 'standard values come from separate untouched tables; calculators using the tables are compared with new '
                'calculators and new tables; seeded search',
        'rule': 'random sequences of custom entries, resets, copies and restores with rejected calls and injected failures; all '
                'entries of all tables are compared with the model after each operation; non-trivial when a custom entry was '
                'present or a call failed',
        'assumptions': [DET, TOL, TIES],
    },
    'C09': {
        'quick': (30000, 150), 'thorough': (500000, 800),
        'technique': 'coroutine scheduler that preempts tasks at user callbacks by seed, with nested evaluations, against each '
                     'task alone in its own process',
        'note': 'up to four tasks with their own structures, calculators and deep copies of them; callbacks of structures, bond '
                'generators, peak widths, profiles, envelopes, baselines and tables; seeded search',
        'rule': 'random tasks, preempted at random and chosen callbacks; results of every operation are compared with those of '
                'the task alone; non-trivial when a task was preempted inside an operation or an evaluation was nested',
        'assumptions': [DET, 'preemption happens in user callbacks and between operations only; the library does not support '
                        'threads'],
    },
    'C11': {
        'quick': (90000, 150), 'thorough': (1500000, 800),
        'technique': 'seeded histories of edits, copies, wrapping, allocation failures and restarts against structures built '
                     'afresh from a content model, and against plain geometry',
        'note': 'all structure classes and wrappers of the library and a user-supplied one; suspended bond generators; '
                'seeded search',
        'rule': 'random edits, copies, assignments, conversions, wrappers, snapshots, suspended and reconfigured bond generators '
                'and comparisons; every report is compared with a structure newly built from the model, with a plain sum over '
                'symmetry operations and translations, and differences are checked site by site; non-trivial when whole '
                'structures were compared and more queries were made',
        'assumptions': [DET, 'a bond generator is not used after its structure was edited', 'distances within the symmetry '
                        'precision from a limit, and symmetry operations that are no group, are compared with a fresh structure only'],
        'real': ['all structure adapters and bond generators, Lattice, PointsInSphere, StructureDifference, serialization'],
        'stub': ['SimPeriodic, a thin subclass of PeriodicStructureAdapter'],
    },
    'C17': {
        'quick': (12000, 150), 'thorough': (250000, 800),
        'technique': 'seeded histories of edits of external crystals and molecules with conversions that fail out of memory, '
                     'compared with the symmetry expansion of ObjCryst and with new calculators',
        'note': 'several crystals and molecules per history; adapters are kept across later edits and the end of the external '
                'object; seeded search',
        'rule': 'random edits, conversions, failing conversions and evaluations; every conversion is compared atom by atom with '
                'the external object and with images from its own symmetry operations, kept conversions with their earlier '
                'state; non-trivial when conversions were compared after edits',
        'assumptions': [DET, TOL, 'ObjCryst gives the right symmetry operations and images', 'evaluations of special positions '
                        'whose displacement tensors break their symmetry depend on the choice of image and are not compared'],
        'real': ['ObjCrystStructureAdapter, CrystalStructureAdapter, all calculators, libObjCryst'],
        'stub': ['operator new'],
    },
    'C20': {
        'quick': (60000, 150), 'thorough': (1500000, 800),
        'technique': 'seeded histories of changes, refused changes, copies and restores of lattices and of suspended '
                     'enumerators, against plain geometry in extended precision',
        'note': 'four lattices and four enumerators per history, all slots checked after every operation; seeded search',
        'rule': 'random changes, degenerate and left-handed base vectors, copies, complete and incomplete snapshots, nested '
                'conversions, enumerators advanced in turns; everything reported is compared with a model; non-trivial when a '
                'change was refused, a snapshot restored or an enumeration compared with all points',
        'assumptions': [DET, 'cells are not nearly flat; points within rounding of a limit may be in or out'],
        'real': ['Lattice, R3 linear algebra, PointsInSphere, ReflectionsInQminQmax, ReflectionsInDmaxDmin, GSL, serialization'],
        'stub': ['none'],
    },
    'C13': {
        'quick': (60000, 200), 'thorough': (1200000, 800),
        'technique': 'seeded histories of registry and component operations with injected failures and restarts against map '
                     'models of names and of attached components',
        'note': 'registries of all six component families; attributes of six calculators with shared, replaced, copied and '
                'restored components; seeded search',
        'rule': 'random sequences of registrations, aliases, removals and creations, or of component and attribute operations; '
                'all registries and attributes are compared with the model after each operation; non-trivial when a call was '
                'refused, failed or replaced a component',
        'assumptions': [DET],
        'real': ['HasClassRegistry, Attributes, all calculators and components and their serialization'],
        'stub': ['prototypes and envelopes of the harness registered beside those of the library'],
    },
    'C15': {
        'quick': (20000, 150), 'thorough': (400000, 800),
        'technique': 'seeded histories with injected failures repeated in one process, held memory and files compared',
        'note': 'histories and faults of the checks C01-C04, C09-C14, C17 and C20, failed loads of data tables; allocator seam counts blocks and bytes and guards '
                'each block; seeded search',
        'rule': 'each history is run three times in one process and all of its objects destroyed; the memory and files in use '
                'after the second and third time must be the same; non-trivial when the history itself was',
        'states': 'abstract states of the repeated histories',
        'assumptions': [DET, 'memory taken by malloc from C libraries is not counted', 'allocations do not fail while '
                        'Boost.Serialization restores structures, which gives up objects by design of its archives',
                        'histories of type registries are not repeated, registered types stay by design'],
    },
    'C16': {
        'quick': (14000, 150), 'thorough': (300000, 800),
        'technique': 'seeded histories repeated with other memory contents, memory layout, event clock and locale, event logs '
                     'compared bitwise',
        'note': 'histories and faults of the checks C01-C04, C09-C14, C17 and C20; seeded search',
        'rule': 'each history is run three times in one process; fresh memory is filled with another pattern, blocks are padded '
                'at random, the event clock jumps ahead or next to its carry and the global locale changes in between; all '
                'records must be the same bit by bit; non-trivial when the history itself was',
        'states': 'abstract states of the repeated histories',
        'assumptions': [DET, 'the first repetition of histories with allocation faults is not compared, since tables that are '
                        'loaded once move the fault points', 'histories of type registries are not repeated'],
        'time': 'event-clock jumps up to one epoch (2^63 ticks)',
    },
}
