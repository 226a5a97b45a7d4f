# What the driver builds and runs.
HARNESSES = {
    'ring':   dict(src=['h_ring.cc']),
    'engine': dict(src=['h_engine.cc']),
    'life':   dict(src=['h_life.cc']),
    'area':   dict(src=['h_area.cc']),
    'reg':    dict(src=['h_reg.cc']),
    'text':   dict(src=['h_text.cc']),
    'out':    dict(src=['h_out.cc']),
    'capi':   dict(src=['h_capi.cc', 'capi_c.c']),
    'file':   dict(src=['h_file.cc']),
    'sched':  dict(src=['h_sched.cc']),
    # a formatter plugin, and a library that is none
    'plug':   dict(src=['h_plug.cc'], lib=False, flavour='plain', flags=['-fPIC'], ld=['-shared']),
    'noplug': dict(src=['h_noplug.cc'], lib=False, flavour='plain', flags=['-fPIC'], ld=['-shared']),
    'cook':   dict(src=['h_cook.cc'], needs=['plug', 'noplug'], repo=['tools/cook.cc', 'tools/raw-parser.cc', 'tools/rdbuf.cc'], repoflags=['-Dmain=cook_main']),
    'hot':    dict(src=['h_hot.cc', 'capi_c.c'], flavour='plain'),
    'scripts': dict(src=['h_scripts.cc'], flavour='plain'),
    'res':    dict(src=['h_res.cc'], flavour='plain'),
    'defring': dict(src=['h_defring.cc']),
    'defringso': dict(src=['h_defring.cc'], flavour='plain', so=True, flags=['-DSHARED_LIB']),
    'intro':  dict(src=['h_intro.cc']),
    'time':   dict(src=['h_time.cc']),
    # the application brings its own default time source
    'timeown': dict(src=['h_time.cc'], flags=['-DOWN_DEFAULT']),
    # both with the library as a shared object
    'timeso': dict(src=['h_time.cc'], flavour='plain', so=True, flags=['-DSHARED_LIB']),
    'timeownso': dict(src=['h_time.cc'], flavour='plain', so=True, flags=['-DSHARED_LIB', '-DOWN_DEFAULT']),
    # the other representation of timestamps
    'timesp': dict(src=['h_time.cc'], flags=['-DHOGL_TIMESTAMP_USE_TIMESPEC_FORMAT'], libflags=['-DHOGL_TIMESTAMP_USE_TIMESPEC_FORMAT']),
    # the tool under test as a program of its own
    'rectool': dict(src=[], repo=['tools/recover.cc', 'tools/recovery-engine.cc', 'tools/coredump.cc'], repoflags=['-DPACKAGE="hogl"', '-DPACKAGE_VERSION="1"'], ld=['-lbfd']),
    'recover': dict(src=['h_recover.cc'], flavour='plain', needs=['rectool', 'plug']),
}
NOT_APPLICABLE = {}
_sched = 'schedules are diversified by the harness holding the engine at its output and clock callbacks and by free-running threads; interleavings inside single instructions of the lock-free ring are only sampled'
CHECKS = {
    'C01': dict(harness=['engine', 'life'], technique='stateful property-based testing with harness-owned schedules, history oracle',
        note='random histories of posts, engine passes and ring lifecycles against an exactly-once/in-order oracle; ' + _sched,
        rule='a case counts when records went through at least two engine passes or a reorder-buffer overflow, see suites'),
    'C02': dict(harness=['engine', 'life'], technique='stateful property-based testing, drop-accounting model',
        note='overflowing histories compared with a per-ring model of accepted and dropped posts; ' + _sched,
        rule='a case counts when at least one post was dropped'),
    'C03': dict(harness=['engine', 'life'], technique='stateful property-based testing, merge-order oracle',
        note='order of the output of several rings checked pairwise against the documented merge guarantee; ' + _sched,
        rule='a case counts when records of two or more rings interleave in one pass'),
    'C04': dict(harness=['text'], technique='property-based testing: generated argument lists against the posted values and the truncation rule, ASan',
        note='every posting interface, argument type and record size sampled; caller buffers are overwritten after each post; trusts the compiler for argument kinds not generated',
        rule='a case counts when a record has more than three arguments or something was truncated'),
    'C05': dict(harness=['text'], technique='property-based testing against an independent libc-based renderer',
        note='differential against snprintf/strftime; conversions in which the bundled fmt library is known to differ from C (see DESIGN.md) are not generated',
        rule='a case counts when a record has at least two arguments'),
    'C06': dict(harness=['life'], technique='stateful property-based testing with stall detection',
        note='blocking rings under generated schedules: no loss, no drop report, every writer continues; a writer that is not woken is a failure; ' + _sched,
        rule='a case counts when at least one writer had to wait'),
    'C07': dict(harness=['area'], technique='stateful property-based testing against a mask model with an independent regular-expression matcher',
        note='rule lists and registration histories compared section by section with a model; the regular-expression grammar generated is literals, classes, groups, alternation and repetition',
        rule='a case counts when a mask changed some section or was applied with user areas present'),
    'C08': dict(harness=['area'], technique='stateful property-based testing against a registry model, plus concurrent registration',
        note='sequential histories are exact; concurrent ones sample interleavings of free-running threads under ASan',
        rule='a case counts when a name was registered more than once'),
    'C09': dict(harness=['reg', 'life'], technique='stateful property-based testing against a ring registry model, allocation tracking, ASan',
        note='registry compared with a model after every operation; the engine is held between passes, in the middle of one or in front of its lock operations; concurrent suite samples free-running interleavings',
        rule='a case counts when a ring was cleaned up and a registration was refused or reused'),
    'C10': dict(harness=['life'], technique='stateful property-based testing of engine lifecycles',
        note='histories of activation, posting, ring release and deactivation against an exactly-once oracle; ' + _sched,
        rule='a case counts when records were pending at a shutdown'),
    'C11': dict(harness=['life'], technique='stateful property-based testing, stream-content oracle at flush return',
        note='the underlying stream is inspected at the moment flush returns; ' + _sched,
        rule='a case counts when records were pending when flush was called'),
    'C12': dict(harness=['life'], technique='stateful property-based testing, per-record clock model',
        note='records posted after an acknowledged change must carry the new clock; ' + _sched,
        rule='a case counts when at least one change took effect with records pending'),
    'C13': dict(harness=['out'], technique='stateful property-based testing with injected short, interrupted and failing writes against a byte-stream model',
        note='the harness stands between the library and write/writev (and the stdio cookie), so every byte accepted by the operating system is compared with the bytes generated; kernel-level faults for stdio streams through file size limits',
        rule='a case counts when more data was generated than the buffer holds'),
    'C14': dict(harness=['file'], technique='stateful property-based testing against a model of the directory, with failing opens and writes and a delayed helper thread',
        note='every byte in a chunk identifies itself (header with its own name, numbered records, footer naming the next chunk), so the directory alone shows loss, damage or wrong naming; chunk counts of one are not generated (the only chunk is then truncated in place)',
        rule='a case counts when at least one rotation or more data than one chunk took place'),
    'C15': dict(harness=['cook'], technique='property-based testing: differential (direct text formatting) and round trip through the cook tool, with an independent packer for the older version',
        note='cook main() runs in a child process under ASan; names are printable and 2 to 128 characters long and strings at most 65535 bytes long, the limits of the tool and format; the address printed for raw data is ignored',
        rule='a case counts when it has more than two records and one with more than three arguments'),
    'C16': dict(harness=['cook'], technique='property-based fuzzing: structured mutation of generated logs, metamorphic oracles (truncated, prefixed and damaged input against the sound part alone), ASan',
        note='cook main() runs in a child process under ASan; exact recovery behind foreign bytes is required when an independent reader finds no record that starts inside them; layouts without time differences and local time are used because those depend on the preceding record or on undefined dates',
        rule='a case counts when the input was damaged inside a record, or more than eight foreign bytes precede more than one record'),
    'C17': dict(harness=['recover'], technique='stateful property-based testing: generated process states and crash points dumped as core files, recovered by the tool (ASan) and compared with the state itself',
        note='core files are written by the process itself (all readable private memory, or only what was written to, as the kernel does), not by the kernel; crash points of running threads are sampled by freezing them with signals; executables next to the core file are not used',
        rule='a case counts when records were pending, see suites'),
    'C18': dict(harness=['capi'], technique='differential property-based testing: generated scripts through the C functions and through the C++ operations',
        note='argument lists are 77 generated signatures of 1-16 arguments with generated values (the macro is expanded at compile time); C functions without observable counterpart (thread attributes) are covered by C19',
        rule='a case counts when an enabled record was posted'),
    'C19': dict(harness=['sched'], technique='property-based testing of strings from both grammars and near misses against an independent reading, with the OS calls replaced by recorders',
        note='pthread_setaffinity_np and pthread_setschedparam are replaced in the test process, so no real CPU set or policy is changed; forms outside the documented grammars that the number parser tolerates (leading blanks or signs, a trailing comma) may be accepted or rejected, but if accepted must mean the obvious set',
        rule='a case counts when a valid setting selected more than one CPU, or threads were started'),
    'C20': dict(harness=['reg', 'res'], technique='stateful property-based testing against a model of per-thread ring stacks, allocation tracking, ASan',
        note='threads take turns under harness control, so routing and nesting are compared exactly; simultaneous set-ups are covered by the C09 threads suite',
        rule='a case counts when nesting reached depth two and a previous ring was restored'),
    'C21': dict(harness=['ring', 'res'], technique='model-based property-based testing (bounded FIFO model) with ASan/UBSan',
        note='option and operation sequences against a bounded FIFO model, plus reader/writer threads; ' + _sched,
        rule='a case counts when the ring wrapped, overflowed or was partially committed'),
    'C22': dict(harness=['hot'], technique='property-based testing with system-call interception (syscall user dispatch or seccomp) and a counting allocator',
        note='every post is watched in the posting thread only, with a time source that makes no system call; shared rings are posted to by one thread at a time, and blocking rings only while they have room, because waiting is excluded from the property',
        rule='a case counts when an enabled record was posted'),
    'C23': dict(harness=['scripts'], technique='property-based testing: generated logs through the scripts against an independent filter, exact integer arithmetic and a strict JSON reader',
        note='logs are written by the library\'s own formatter; messages are one line of printable text; trace records follow the forms the script documents, others only have to leave the document valid',
        rule='a case counts when at least two lines or events came out'),
    'C24': dict(harness=['defring', 'defringso'], technique='stateful property-based testing of whole processes: generated default ring options and scripts, exactly-once oracle over what is left in the output after exit',
        note='each case is a new process of the harness executable; thread-local rings are released before exit (an engine does not end while rings are in use) and outputs outlive the engine, as the API requires',
        rule='a case counts when records came out, or activation had to be refused'),
    'C25': dict(harness=['res'], technique='property-based testing of generated lifecycles, metamorphic oracle: running the same lifecycle again must not raise the number of allocated blocks, descriptors, threads or child processes',
        note='allocator, thread creation and scheduling calls are replaced in the test process; growth has to show in each of the last five of nine runs, so a leak that happens only in some runs of the same script can be missed',
        rule='every case'),
    'C26': dict(harness=['intro'], technique='stateful property-based testing: dumps parsed and compared with accessors and a model, masks read back, concurrent dumps with an exactly-once oracle, ASan',
        note='fields are found by their names, so their order and spacing do not matter; rule texts, ring and area names are single lines without leading blanks; concurrent dumps sample free-running interleavings',
        rule='a case counts when records were posted and the engine was looked at, or objects were dumped'),
    'C27': dict(harness=['time', 'timeown', 'timeso', 'timeownso', 'timesp'], technique='property-based testing: generated clock readings and real clocks with an interval oracle, timestamps against integer arithmetic',
        note='clock_gettime is replaced in posting threads; both representations of timestamps are built, the seconds/nanoseconds one for times below 2^32 seconds',
        rule='a case counts when a time source was changed, more than four records were merged, or timestamps were computed with'),
}
