RMC_ASSUME = [
    'library and harness code is compiled with g++-10 -fsanitize=thread; rmc sees every memory access, atomic, lock and static-local initialisation they make',
    'scheduling points are lock acquisitions, atomic operations, static-local initialisations, yields and marked points in user callbacks; code between them is race free or the race is reported',
    'executions are sequentially consistent; weaker behaviours are covered by the happens-before race detector, which honours the memory order of every atomic',
    'up to 3 threads, the listed scenarios and the stated preemption bounds (bound 250: all schedules)',
]
RMC_TECH = 'stateless model checking of the real code: all thread interleavings of each scenario under a controlled scheduler, with happens-before state caching, race and deadlock detection'
RMC_NOTE = ('Every schedule of the listed scenarios (most without preemption bound, the larger ones up to the bound in the evidence) is executed on the '
            'compiled library and checked against the property, for data races, deadlocks and use of freed memory. Trusts the rmc runtime and the compiler instrumentation.')
CHECKS = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05'):
    CHECKS[_p] = dict(engine='rmc', sources=['rmc/%s.cpp' % _p.lower()], assumptions=RMC_ASSUME, technique=RMC_TECH, level_note=RMC_NOTE)
CHECKS['C04']['technique'] = RMC_TECH + '; each history checked for linearizability'

SEQ_ASSUME = [
    'the whole library and the harness are compiled with g++-10 with address and undefined-behaviour sanitizers; any report is a violation',
    'values of an operation are fresh and distinct, so that any mix-up is visible',
    'the exploration is exhaustive for the listed operations, kinds and depths only',
]
SEQ_TECH = 'explicit-state model checking of the real code: every sequence of operations up to the stated depth is executed and compared step by step with a reference model'
def _seq(pid, note, technique=SEQ_TECH, assume=(), **kw):
    CHECKS[pid] = dict(engine='seq', sources=kw.pop('sources', ['seq/%s.cpp' % pid.lower()]), technique=technique, level_note=note, assumptions=SEQ_ASSUME + list(assume), **kw)

_seq('V01', 'All histories of assignments, copies, moves, swaps, clears, writes and conversions over 1 to 3 variants and 29 kinds of values, to depth 3 to 5, against a model of values and aliases; all pairs of 92 types of 23 sizes and alignments.', sources=['seq/v01.cpp', 'seq/v01b.cpp'])
_seq('V02', 'The histories of V01 with a fault injected at every allocation, copy, move and default construction, one or two faults per operation; objects are tracked by address, memory by balance.',
     SEQ_TECH + '; faults injected exhaustively')
_seq('V03', 'Every combination of 62 held things (values, references, constant references, arrays, pointers of up to three levels), 49 target types and 20 forms of access on mutable, constant and expiring variants, against what the C++ type traits permit; identity of the object accessed and absence of effects are checked.', flags=['-O0', '-g0'])
_seq('V04', 'All pairs of about 1300 variants (39 types, three values of which two are equal but not identical, eleven ways of producing them), compared both ways, with bare values, and as hash keys, against the model: equal decayed type and equal value. NaN is left out, it is not equal to itself in C++.', flags=['-O1', '-g0'])
_seq('V05', 'All histories of registering (13 forms of converters), removing and using converters for eleven pairs of types to depth 3 (5 thorough), and of registering converting constructors with classes, and of the converters between all of twenty types; after each, every query and every way of converting values, references and constant references is compared with a map of converters.', flags=['-O1', '-g0'])
_seq('T01', 'About 1500 types (46 bases with qualifiers, references, pointers and arrays) against the C++ type traits, identity of all pairs, names and mutations of names, and every order of first use of related types to depth 3 (4 thorough) in fresh processes.',
     sources=['seq/t01.cpp', 'seq/t01b.cpp'], flags=['-O0', '-g0'])
_seq('T02', 'All pairs of types of one base: every qualification of pointers of up to three levels, by value and by reference, arrays of those, deep pointers, against the qualification conversions and reference binding of C++ as the compiler computes them.', sources=['seq/t02.cpp', 'seq/t02a.cpp', 'seq/t02b.cpp', 'seq/t02c.cpp'], flags=['-O0', '-g0'])
_seq('T03', 'All 16 million combinations of flags and 130 types are printed; the text must list exactly the names of the flags.')
_seq('R01', 'All histories, to depth 5, of opening and closing nested namespaces, defining methods, properties and enums over a few names, and, to depth 4, the same with three classes registered under two names; after each step the whole tree is compared with a reference tree, by every name of a universe, every index and every iteration. Namespaces nested up to 24 deep. Visits whose visitors stop, throw, ask, visit again and define.', flags=['-O1', '-g0'])
_seq('R02', 'All orders of declaring base classes (single, lists) and members over five classes, to depth 4, with lookups between them, lists of up to ten base classes, chains of fourteen, all sequences of five overloads and similar names, all triples of member signatures; after each step every lookup by every name on every class is compared with the reference search.', flags=['-O1', '-g0'])
_seq('R03', 'All histories of setting attributes and enum elements, in five ways of passing the value, and of opening and closing namespaces, enums and classes, to depth 6, maps of up to 40 names rewritten in different orders; after each step the maps are compared with a reference by count, name, index and iteration. References returned before are followed. Values that ask the item when copied or destroyed, copies that fail. Visits whose visitors stop, throw, ask, visit again and assign.', flags=['-O1', '-g0'])
_seq('R04', 'All histories, to depth 3 (all operations: 2; 4 thorough), of registering three classes in three containers under two names or their own, naming lists of base classes and attaching deferred definitions, with and without queries between them: every misuse is refused with its error, leaves the whole tree as it was and the builder usable. Constructors offered by 13 classes of different traits.', flags=['-O1', '-g0'])
_seq('R05', 'Deferred definitions of two operations (3 thorough) out of 14 in namespaces and classes, with every one of 37 queries as the first one; immediate definitions before, after and on reopening; all pairs of definitions of two containers that define into and query each other and themselves; nested deferred definitions under every way of forcing; base classes whose definitions change the class that is asked, its bases and each other; definitions that register derived classes. Answers, contents and which definitions were run are compared with a reference in which definitions are immediate on first use.', flags=['-O1', '-g0'])

_seq('H01', 'All inheritance graphs of up to four classes (with every order of direct bases, virtual or not; and of five and six with one class derived from others, at most one virtual base, any number thorough; and eight larger ones of up to twelve), registered immediately, on reopening in reverse, deferred and mixed, with every class cast first, and growing (everything asked again after every declaration); every sub-object of an object of every class is cast to every class as pointer, pointer to const, reference and constant reference, and compared with the cast C++ makes.',
     generator='seq/h01_gen.py', flags=['-O0', '-g0', '-fno-sanitize=all'])

_seq('V06', 'Variants holding objects of 31 inheritance graphs (all of up to three classes, diamonds and chains of four; all of four thorough), with and without class information, one class unregistered at a time (or registered between two rounds of queries), by value, reference, constant reference, pointers and references to pointers of every static class, and null pointers; every one of about 35 forms of access to every class is compared with the sub-object C++ gives.',
     generator='seq/v06_gen.py', flags=['-O0', '-g0'])

_seq('I01', 'Every pair of 50 parameter types and 306 arguments (17 kinds of things given in 18 ways: lvalues, rvalues, references, variants), for functions, methods, constructors and the middle of three parameters, with and without converters, against what C++ binds; all numbers of parameters and arguments from 0 to 10; all pairs (and triples of one kind) of 7 forms of parameters and 7 sources of each argument, the same object given twice, and the same function called again inside of the call; 31 kinds of results.',
     sources=['seq/i01.cpp', 'seq/i01n.cpp', 'seq/i01m.cpp'] + ['seq/i01m%s.cpp' % c for c in 'abcd'] + ['seq/i01%s.cpp' % c for c in 'abcd'] + ['seq/i01p%s.cpp' % c for c in 'abcde'], flags=['-O0', '-g0'])

_seq('I02', 'Every pair of 35 things to call (methods constant or not, virtual, overridden, shadowed, of base classes, field and pair properties, static methods) and about 130 instances (objects of 10 kinds as values, references, pointers, references to pointers, null, arrays), by item and by name, through mutable, constant and expiring variants and bare references and pointers: which object is worked on, whether it may be, effects and results; also with classes and bases registered between the calls.', flags=['-O0', '-g0'])

_seq('I03', 'Every pair of 49 types of properties (variables, fields, setters by value and reference) and 306 values (17 kinds given in 18 ways), written to variables, fields and pairs of functions by item, by name and through pointers, with and without converters; pairs (thorough: triples) of writes of values that compare equal but differ to 22 properties of the same types; all histories to depth 4 (5 thorough) of 22 operations that read, write, copy and misuse properties, compared with the variables themselves.',
     sources=['seq/i03.cpp'] + ['seq/i01%s.cpp' % c for c in 'abcd'] + ['seq/i03p%s.cpp' % c for c in 'abcde'], flags=['-O0', '-g0', '-DI03'])

_seq('I04', 'Calls of 10 kinds of functions, 6 of methods, 3 of properties and 6 of constructors over 4 kinds of objects (small and large, with moves that fail, that only move), with arguments and instances given in up to 10 ways, and every allocation, copy, move and 7 kinds of exceptions of the function itself failing in turn: the very exception reaches the caller, objects are destroyed once, arguments are what they were, memory is balanced, the call can be repeated.',
     sources=['seq/i04.cpp', 'seq/i04small.cpp', 'seq/i04big.cpp', 'seq/i04thrower.cpp', 'seq/i04move.cpp'], flags=['-O0', '-g0'])
_seq('R06', 'Every pair (thorough: triple, and two faults) of 17 registry operations, each allocation of the second one failing in turn: the registry is in one of the states on the way, every item is found by index and name, the operation can be repeated and ends in the state of an undisturbed run, no memory is lost.',
     SEQ_TECH + '; faults injected exhaustively', flags=['-O0', '-g0'])

_seq('S01', 'All sequences, to depth 4 (5 thorough), of first uses of types, converters, the global namespace, classes, namespaces and variants and of creating static objects whose destructors ask for everything, every prefix of them before the dynamic initialisation of the library: each in a process of its own that runs to its end; registration blocks of three files run once each before main.', sources=['seq/s01.cpp', 'seq/s01r1.cpp', 'seq/s01r2.cpp'], flags=['-O0', '-g0'])

_seq('M01', 'All type lists of up to four elements of three kinds and all pairs of lists of up to three, under every operation; about 1100 function types; detection of methods in 14 classes; all histories, to depth 5 (7 thorough), of making, moving, assigning, dismissing and leaving scope guards, and of scopes left with up to three exceptions in flight: the traits of every type of up to four constructors over six bases, of templates, flags, identifiers and text: compared with sequences, with what the compiler says, and with the rule that a function runs once.', sources=['seq/m01.cpp', 'seq/m01a.cpp', 'seq/m01b.cpp', 'seq/m01c.cpp', 'seq/m01d.cpp'], flags=['-O0', '-g0'])
