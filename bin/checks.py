"""The checks: what is compiled, in which build modes, and what the evidence says about bounds."""

import os

MC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc')
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
MODES = {
    'plain': dict(flags=ASAN),
    'ec': dict(flags=ASAN + ['-DSERIALIZATION_ERROR_CHECKING']),
    'nofallocate': dict(flags=ASAN, undef=['checkpoint_has_fallocate', 'checkpoint_has_mmap64']),
    'native': dict(flags=['-O1', '-DMC_NATIVE']),
    'native_ec': dict(flags=['-O1', '-DMC_NATIVE', '-DSERIALIZATION_ERROR_CHECKING']),
    # instrumentation only: mc/ctlsched.cc takes the place of the sanitizer's runtime
    'sched': dict(flags=['-fsanitize=thread', '-fno-pie'], own_flags=['-fno-sanitize=all'], link_flags=['-no-pie', '-ldl']),
    'sched_ec': dict(flags=['-fsanitize=thread', '-fno-pie', '-DSERIALIZATION_ERROR_CHECKING'], own_flags=['-fno-sanitize=all'], link_flags=['-no-pie', '-ldl']),
}
TRUST = 'g++ 13 with AddressSanitizer at -O0 on x86-64 Linux; the harness and its reference observations are trusted'
VALUES = ('about 120 types in 12 groups (arithmetic, enum, chrono, byte-copyable, every standard container and wrapper, '
          'unique_ptr graphs, user classes with each serialize and construction style, nestings); per type every value with '
          'container length, leaf values and capacity up to the bound registered in mc/groups.h (thorough: one more element '
          'and one more leaf value), plus size ladders around powers of two')


def BIG(check):   # values beyond 2^31 and 2^32 bytes, without AddressSanitizer because of the memory it takes
    return dict(src='big.cc', modes=['native'], flags=['-DCHECK=%d' % check, '-O2'])


def WIDE(check):
    return dict(src='wide.cc', modes=['native'], flags=['-DCHECK=%d' % check, '-O0', '-g0'])


BIGVALUES = '; vectors, and objects of several, on both sides of 2^31 and 2^32 bytes and elements'

CHECKS = {
    'C01': dict(note='Every value within the bounds round-trips on the real code in both build modes, at every buffer alignment; says nothing about values beyond the bounds. Trusts the harness observation functions and the compiler.',
                level='model_checking', modes=['plain', 'ec', 'native'], units=[WIDE(1), 'universe', BIG(1)], header='c01.h', public_api_only=True,
                technique='exhaustive bounded enumeration of values against a reference observation, on the real code',
                rule='one execution = one value of one type; non-trivial = it was serialized and restored through every memory path',
                bounds=VALUES + BIGVALUES + '; every alternative of a variant of 260, a tuple of 70, chains of up to 400 pointers, vectors nested 20 deep', assumptions=[TRUST]),
    'C02': dict(note='Every value within the bounds against every buffer environment on the real code; out-of-bounds accesses are seen by AddressSanitizer and guard bytes.',
                level='model_checking', modes=['plain', 'ec', 'native'], units=['universe', BIG(2)], header='c02.h', public_api_only=True,
                technique='exhaustive bounded enumeration of values and buffer environments, on the real code',
                rule='one execution = one value of one type against every buffer environment; non-trivial = all four sizes were compared',
                bounds=VALUES + BIGVALUES, assumptions=[TRUST]),
    'C03': dict(note='Every value within the bounds; before/after observation covers value, capacities and addresses of parts; sharing is decided on the address ranges of the parts.',
                level='model_checking', modes=['plain', 'ec'], units=['universe'] + [dict(src='c03_watch.cc', name='watch%d' % i, flags=['-DPART=%d' % i], modes=['plain', 'ec'], quick_modes=['plain', 'ec']) for i in range(3)], header='c03.h', public_api_only=True,
                technique='exhaustive bounded enumeration of values with before/after observation, on the real code',
                rule='one execution = one value of one type through every observing operation; non-trivial = at least one serialize and decode ran',
                bounds=VALUES, assumptions=[TRUST]),
    'C04': dict(note='Every ordered pair of old and new value within the pair bounds and every decode sequence up to the depth, with block accounting.',
                level='model_checking', modes=['plain', 'ec', 'native'], units=[WIDE(4), 'universe'], header='c04.h', public_api_only=True,
                technique='exhaustive enumeration of (old value, new value) pairs and of decode sequences, on the real code',
                rule='one execution = one ordered pair of values, or one sequence of in-place decodes into one target; non-trivial = the old value differs from the new one',
                bounds='per type every ordered pair of values within the pair bounds of mc/groups.h; every sequence of 3 (thorough: 5) buffers out of 4 from every start value; every ordered pair of the 260 alternatives of a variant',
                assumptions=[TRUST]),
    'C05': dict(note='Every value within the bounds over all encoder/decoder combinations, all object sequences up to the depth, all pairs of process histories listed.',
                level='model_checking', modes=['plain', 'ec', 'native'], units=['universe', 'c05_xproc.cc', BIG(5)], header='c05.h', public_api_only=True,
                technique='exhaustive enumeration of values x encoders x decoders, of object sequences on one stream and of process histories, on the real code',
                rule='one execution = one value over every encoder and decoder, one sequence of objects in a stream, one history of file contents, or one pair of process histories',
                bounds=VALUES + BIGVALUES + '; sequences of 3 (thorough: 4) objects per stream; up to 2 previous file contents of 6 sizes; 5 x 5 process histories in both directions',
                assumptions=[TRUST]),
    'C06': dict(note='Every file-related system call the operations make (trapped by seccomp, so whatever code makes it) fails with every error, alone, and with a second failure during the clean-up; also hostile paths and limits. Failing calls have no effect except that close releases its descriptor.',
                level='fault_enumeration', modes=['plain', 'nofallocate'], units=['c06.cc', 'sys.cc'], public_api_only=True,
                technique='exhaustive fault enumeration at every system call of the real code',
                rule='one evaluation = one operation with a choice of failing system calls and errors; distinct non-trivial = executions where at least one call failed by choice, or the surroundings were hostile',
                bounds='8 values x 6 operations x every call x every error number 1..133; two failing calls x 5 errors for 2 values (thorough: all, and three failing calls); 10 error paths x one failing call; 21 hostile surroundings',
                assumptions=[TRUST, 'the trap sees every system call on files; a failing call leaves the file system as it was']),
    'C07': dict(note='Explicit model of the disk (POSIX: only msync(MS_SYNC), fsync, fdatasync, sync and O_SYNC make content or length durable; pages are lost independently), driven by the real system calls of the real code; creation and renaming of the directory entry are assumed durable with fsync of the file.',
                level='model_checking', modes=['plain', 'nofallocate'], units=['c07.cc', 'sys.cc'], public_api_only=True,
                technique='exhaustive enumeration of operation histories x crash points x subsets of unflushed pages on an explicit disk model driven by the real system calls',
                rule='one execution = one history of saves and restores with a crash before every system call; states = distinct contents after a crash',
                bounds='histories of 4 (thorough: 5) operations on 3 files; sizes around page boundaries up to 4 (thorough: 8) pages; all subsets of up to 8 unflushed pages, and prefixes and singletons beyond',
                assumptions=[TRUST, 'disk model: POSIX flush semantics with 4096-byte pages; directory entries durable with fsync of the file']),
    'C08': dict(note='Every proper prefix of every value within the bounds through every file and stream decoder; AddressSanitizer and signals catch over-reads.',
                level='model_checking', modes=['plain', 'ec'], units=['universe'], header='c08.h', public_api_only=True,
                technique='exhaustive enumeration of values x truncation points x decoders, on the real code',
                rule='one execution = one value with every prefix of its bytes through 7 file and stream decoders; non-trivial = it differs from the in-place target',
                bounds='per type every value within the pair bounds of mc/groups.h, every proper prefix (values over 2000 bytes: every prefix near both ends and 500 in between); page-crossing values at page boundaries',
                assumptions=[TRUST]),
    'C09': dict(note='Every ordered pair of about 125 types through every decoder, 384 same-layout types against each other, the identities of 4480 (thorough: 20000), every value of every framing byte of fixed-layout types.',
                level='model_checking', modes=['plain', 'ec', 'native'], units=['universe', 'c09_many.cc'] + [dict(src='c09_ids.cc', name='ids%d' % i, flags=['-DBLOCK=%d' % i]) for i in range(8)] + [dict(src='c09_idents.cc', name='idents%d' % i, modes=['native'], flags=['-O0', '-DBLOCK=%d' % i]) for i in range(16)], header='c09.h', public_api_only=True,
                technique='exhaustive enumeration of ordered type pairs x decoders and of single-byte corruptions of the framing, on the real code',
                rule='one execution = one ordered pair of types through all decoders, one of 384 types against all others, all identities once, or one framing byte with its 255 other values; non-trivial = the types differ or the byte was changed',
                bounds='all ordered pairs of the universe types and four polymorphic ones, two values each; 384 types; all 255 changes of each framing byte of 15 types', assumptions=[TRUST]),
    'C10': dict(note='Every single deviation (omit, insert, replace, swap; 20 kinds of steps) at every position of every plan within the bounds, in ten embeddings; the verdict follows from the sizes of the two plans, each measured symmetrically.',
                level='model_checking', modes=['plain', 'ec'], units=['c10.cc'], public_api_only=True,
                technique='exhaustive enumeration of serializer programs and of deviations between their phases, executed on the real code',
                rule='one execution = one program with one deviation between two phases, through every transport; non-trivial = the phases really differ',
                bounds='plans of 2 (thorough: 3) steps at two nesting levels, 20 kinds of steps, one deviation anywhere, ten embeddings; raw size deviations from -64 to +8192 bytes', assumptions=[TRUST]),
    'C11': dict(note='Every object graph within the bounds: class x level x kind of member x class of what it holds, with a reference account of the levels to visit; the same graphs in six orders of definition and first use; wide (24, and 272 classes pairwise; thorough 1120) and deep (8) hierarchies.',
                level='model_checking', modes=['plain', 'ec', 'native'], units=[dict(src='c11.cc', name='order%d' % i, flags=['-DORDER=%d' % i], quick_modes=['plain', 'ec'] if i == 0 else ['plain']) for i in range(6)] + [dict(src='c11_shapes.cc', name='shapes%d' % i, flags=['-DSHAPE=%d' % i], quick_modes=['plain']) for i in range(3)] + [dict(src='c11_wide.cc', name='wide%d' % i, modes=['native'], flags=['-O0', '-DBLOCK=%d' % i]) for i in range(16)], public_api_only=True,
                technique='exhaustive enumeration of polymorphic object graphs, positions and definition orders against a reference account of the levels, on the real code',
                rule='one execution = one object graph through sizing, footprint, serializing and decoders; every one is non-trivial (it has a polymorphic object)',
                bounds='5 CRTP and 3 macro classes, 13 kinds of members at every level, nesting 3, two members per object (rotating second-level contents); 10 holders; 6 definition orders; in place over every class', assumptions=[TRUST]),
    'C12': dict(note='Every combination of offered strategies, copying and position within the bounds; objects record which strategy made them, where, and how often they were serialized.',
                level='model_checking', modes=['plain', 'ec'], units=[dict(src='c12.cc', name='t%dr%d' % (t, r), flags=['-DTAGGED=%d' % t, '-DRECON=%d' % r], quick_modes=['plain'] if (t, r) != (0, 1) else ['plain', 'ec']) for t in (0, 1) for r in range(4)], public_api_only=True,
                technique='exhaustive enumeration of offered strategies x positions x sizes with objects that record how they were made, on the real code',
                rule='one execution = one value holding objects of one class in one position, through 2 to 5 decoders; every one is non-trivial',
                bounds='tagged x {none, member, free, specialised reconstruct} x default x {copyable, movable, fixed}; alignments 8 and 64; 30 positions; up to 4 elements; CRTP and macro hierarchies', assumptions=[TRUST]),
    'C13': dict(note='Every value within the bounds through every operation with every single failing allocation, construction and serialize call, every truncation and a type mismatch; objects check their own lifetimes, blocks are counted, AddressSanitizer sees double and wild releases.',
                level='fault_enumeration', modes=['plain', 'ec'], units=['universe'] + [dict(src='c13.cc', name='probes%d' % i, flags=['-DPART=%d' % i], quick_modes=['plain', 'ec'] if i == 4 else ['plain']) for i in range(5)], header='c13.h', public_api_only=True,
                technique='exhaustive fault enumeration (k-th allocation, construction, serialize call; every truncation) over values and operations with lifetime accounting, on the real code',
                rule='one execution = one value, operation and failing step, or one value cut everywhere through one decoder; non-trivial = something failed',
                bounds='about 120 universe types and 52 probe types (5 construction styles, copyable and move-only, every container position, nestings, polymorphic graphs) x 3 (thorough: 5) values x 14 operations x every failing step; one failure per operation', assumptions=[TRUST]),
    'C14': dict(note='Every value within the bounds against an independently written count of the documented rules.',
                level='model_checking', modes=['plain', 'ec', 'native'], units=['universe', BIG(14)] + [dict(src='c14_extra.cc', name='extra%d' % i, flags=['-DPART=%d' % i], modes=['plain', 'ec'], quick_modes=['plain']) for i in range(5)], header='c14.h', public_api_only=True,
                technique='exhaustive bounded enumeration of values against an independent counting of the documented rules, on the real code',
                rule='one execution = one value of one type; non-trivial = its footprint was compared with the rules',
                bounds=VALUES + BIGVALUES + '; 17 types only the footprint supports (shared, raw, void and FILE pointers, std::function, threads, atomics, stacks, priority queues, classes without serialize, polymorphic pointees) alone and in 15 holders, nine of them two holders deep', assumptions=[TRUST]),
    'C15': dict(note='Every value within the bounds through recording traversers (byte-wise and typed; sizing, packing, unpacking, neutral) and dispatchers (counting, taking vectors over); the leaves and parts to expect, with addresses, come from an independent walk.',
                level='model_checking', modes=['plain', 'ec'], units=['universe'] + [dict(src='c15_poly.cc', name='poly%d' % i, flags=['-DORDER=%d' % i]) for i in range(2)], header='c15.h', public_api_only=True,
                technique='exhaustive bounded enumeration of values x traversers x dispatchers against an independent walk over leaves and parts, on the real code',
                rule='one execution = one value of one type through every traverser and dispatcher; non-trivial = it has a leaf or a part',
                bounds=VALUES + '; graphs of polymorphic objects of five classes (three levels, two bases, two ways to declare them) three deep, reached through pointers, vectors and references to any level, in two orders of instantiation', assumptions=[TRUST]),
    'C16': dict(note='Real threads on the real code, one running at a time; switches at every access to memory that two threads touch (found by instrumentation, to a fixpoint), at synchronisation and, for files, before every call that concerns files or the process. Every execution is a fresh process, so first uses race too. A data race between instrumented accesses is a violation as well. Accesses inside the compiled C and C++ libraries are not seen (std::string is), and one total order of accesses is explored (no weak memory), which is what makes data races violations.',
                level='model_checking', modes=['sched', 'sched_ec'], no_alloc=True,
                units=[dict(src='c16.cc', name='part%d' % i, flags=['-DPART=%d' % i], quick_modes=['sched', 'sched_ec'] if i in (4,) else ['sched']) for i in range(6)] + [dict(src='ctlsched.cc', flags=['-O2', '-fno-sanitize=all', '-fno-builtin']), dict(src='string_inst.cc')], public_api_only=True,
                technique='stateless model checking of the real code: exhaustive preemption-bounded schedules under a controlled scheduler',
                rule='one execution = one schedule in a fresh process; non-trivial = at least two threads ran operations of the library',
                bounds='32 types x 5 groups of operations, every pair on one type, a shared buffer, three threads; 7 types pairwise; at most 2 preemptions (three threads: 1; thorough: one more)',
                assumptions=['g++ 13 instrumentation at -O0; sequential consistency, with data races reported', 'the C and C++ libraries are thread-safe as documented']),
    'C17': dict(note='Histories of up to three operations, each history in a process of its own, compared operation by operation with the outcome in a fresh process; the same operations on a heap and stack full of other bytes, and inside another object\'s serialize (two levels deep).',
                level='model_checking', modes=['native', 'native_ec'],
                units=[dict(src='c17.cc', name='part%d' % i, flags=['-DPART=%d' % i]) for i in range(10)], public_api_only=True,
                technique='exhaustive bounded enumeration of operation histories and nestings on the real code, each in a forked process, against the outcome in a fresh process',
                rule='one execution = one history (or nesting, or memory residue) in a fresh process; non-trivial = at least two operations, or memory holding other bytes',
                bounds='36 types x 13 operations x 2 values: all pairs of the 22 types that do not nest and a part of the others; triples on one type (thorough: all of them, and mixed triples); 12 residues of heap and stack; 14 nesting types x every operation, two levels for a part',
                assumptions=[TRUST]),
    'C18': dict(note='Every shape, layout and kind of memory within the bounds, in every transport, compiled against a small Kokkos stand-in (mc/kokkos), which the repository\'s own 548 Kokkos test cases pass on (bin/kokkos_conformance.sh).',
                level='model_checking', modes=['plain', 'ec'], flags=['-DMAGISTRATE_KOKKOS_ENABLED=1', '-DMAGISTRATE_KOKKOS_KERNELS_ENABLED=1', '-I' + os.path.join(MC, 'kokkos')],
                units=[dict(src='c18.cc', name='part%d' % i, flags=['-DPART=%d' % i], modes=['plain', 'ec'], quick_modes=['plain', 'ec']) for i in range(6)], public_api_only=True,
                technique='exhaustive bounded enumeration of view shapes, layouts and map histories, on the real code over a Kokkos stand-in whose conformance is tested',
                rule='one execution = one view, map or value through all four encoders and eight decoders; non-trivial = it was serialized and decoded',
                bounds='ranks 0 to 8, static and dynamic extents 0 to 3 (rank 3: 0 to 2; above: 0 to 2 in two dimensions), left, right and strided layouts (nine orders and gaps), padding, labels, host and far memory, const and atomic views, dynamic-rank and dynamic views, views of views, maps after every sequence of up to 3 (thorough: 4) insertions and erasures',
                assumptions=[TRUST, 'Kokkos behaves like the stand-in in mc/kokkos, on which the repository\'s own Kokkos tests pass; device memory is stood for by host memory that only deep_copy can reach']),
    'C19': dict(note='Every combination of declarations in every place, with every call of a serialize function recorded; the types are the harness\'s own.',
                level='model_checking', modes=['native', 'native_ec'], public_api_only=True,
                units=[dict(src='c19.cc', name='decl%d' % i, flags=['-O0', '-DDECL=%d' % i], modes=['native', 'native_ec'], quick_modes=['native']) for i in range(11)],
                technique='exhaustive enumeration of declarations x places x counts x operations with the calls recorded, on the real code',
                rule='one execution = one operation on the objects of one type in one place; non-trivial = every call and byte count was compared',
                bounds='nine byte-copy declarations x seven serialize styles, CHECKPOINT_BYTES, enumerations of ten underlying types, eight classes of unusual shape, a virtually serialized class; 15 places with 0 to 5 objects; 12 operations', assumptions=[TRUST]),
}

NOT_APPLICABLE = {
}
