"""Which programs are built and which workloads decide which property."""

PROGS = {
    'h_scheme': dict(name='h_scheme', flavor='plain', main='h_scheme.cpp', lib='all'),
    'h_combi': dict(name='h_combi', flavor='plain', main='h_combi.cpp', lib='all'),
    'h_third': dict(name='h_third', flavor='plain', main='h_third.cpp', lib='all', link_extra=['-rdynamic']),
    'h_mgr': dict(name='h_mgr', flavor='plain', main='h_mgr.cpp', lib='all'),
    'h_sys': dict(name='h_sys', flavor='plain', main='h_sys.cpp', lib='all'),
    'h_net': dict(name='h_net', flavor='plain', main='h_net.cpp', lib='all', extra_src=['frag.cpp']),
    'h_tl': dict(name='h_tl', flavor='plain', main='h_tl.cpp', lib='all', extra_src=['frag.cpp'], link_extra=['-rdynamic']),
    'broker': dict(name='broker', flavor='plain', main='frag.cpp', repo_src=['third_level_manager/%s.cpp' % x for x in ('Params', 'Stats', 'System', 'thirdLevelManager')] + ['src/third_level/NetworkUtils.cpp']),
    'h_dsg': dict(name='h_dsg', flavor='plain', main='h_dsg.cpp', lib='all'),
    'h_grid': dict(name='h_grid', flavor='plain', main='h_grid.cpp', lib='base'),
}

for _n in list(PROGS):
    PROGS['a_' + _n] = dict(PROGS[_n], name='a_' + _n, flavor='asan')

for _n in ('h_combi', 'h_mgr', 'h_third', 'h_grid', 'h_dsg', 'h_sys', 'h_tl'):
    PROGS['m_' + _n] = dict(PROGS['a_' + _n], name='m_' + _n, extra_src=PROGS[_n].get('extra_src', []) + ['pmpi.cpp'])

for _n in ('h_combi', 'h_mgr', 'h_third', 'h_grid', 'h_dsg'):
    PROGS['t_' + _n] = dict(PROGS[_n], name='t_' + _n, flavor='tsan', extra_src=PROGS[_n].get('extra_src', []) + ['mgomp.cpp'], no_gomp=True)

GRID_RULE = ('one case = random dimension, anisotropic levels, boundary types, process grid and (default, random or '
             'downsampled) decomposition, number type and hashed nodal data; distinct by its full description')


def grid(suite, q, t):
    return dict(prog='h_grid', suite=suite, n=8, cases=dict(quick=q, thorough=t), chunk=100 if q <= 400 else 200)


def combi(suite, q, t):
    return dict(prog='h_combi', suite=suite, n=8, cases=dict(quick=q, thorough=t), chunk=100)


def scheme(suite, n, q, t):
    return dict(prog='h_scheme', suite=suite, n=n, cases=dict(quick=q, thorough=t), chunk=500, threads=1)


SCHEME_RULE = ('one case = random dimension, minimum and maximum levels (anisotropic, dummy dimensions), scheme kind, and the '
               'random data of the suite (fractions, groups, files, durations, losses); distinct by its full description')
COMBI_RULE = ('one case = random scheme, boundaries, bases, groups x processes, decomposition, assignment, variant, chunk '
              'size, step count and data; distinct by its full description')
MGR_RULE = 'one case = random sequence of manager operations, task delays, groups, scheme, boundaries, decomposition, combination variant and task IDs; distinct by its full description'
def mgr(suite, q, t): return dict(prog='h_mgr', suite=suite, n=8, cases=dict(quick=q, thorough=t), chunk=200)

def sys_(suite, n, q, t): return dict(prog='h_sys', suite=suite, n=n, cases=dict(quick=q, thorough=t), chunk=100)

def net(suite, q, t): return dict(prog='h_net', suite=suite, n=1, cases=dict(quick=q, thorough=t), chunk=50 if suite == 'sock' else 20, nompi=True, threads=1, args=dict(broker='@BIN:broker@'))

def asan(run, q, t, **kw):
    return dict(run, prog='a_' + run['prog'], cases=dict(quick=q, thorough=t), functional=False, crash_counts=True, san_filter=lambda kind, loc, txt: not loc.startswith('?'), chunk=max(q // 2, 1) if q <= 200 else 100, **kw)


ASAN_RUNS = [asan(grid('hier', 1, 1), 160, 6000), asan(grid('index', 1, 1), 160, 6000), asan(grid('eval', 1, 1), 160, 6000), asan(grid('plot', 1, 1), 100, 4000),
             asan(combi('combi', 1, 1), 160, 6000), asan(combi('interp', 1, 1), 60, 2000), asan(combi('sizes', 1, 1), 60, 2000),
             asan(scheme('scheme', 1, 1, 1), 200, 6000), asan(scheme('file', 3, 1, 1), 100, 3000), asan(scheme('assign', 2, 1, 1), 200, 6000), asan(scheme('resched', 1, 1, 1), 400, 10000),
             asan(scheme('lp', 1, 1, 1), 300, 8000), asan(scheme('load', 1, 1, 1), 150, 4000),
             asan(dict(prog='h_dsg', suite='io', n=8), 100, 4000), asan(dict(prog='h_third', suite='file', n=8), 40, 1500),
             asan(mgr('ops', 1, 1), 120, 5000), asan(mgr('resched', 1, 1), 60, 2000), asan(mgr('fault', 1, 1), 60, 2000),
             asan(sys_('stats', 8, 1, 1), 100, 3000), asan(sys_('layout', 12, 1, 1), 60, 1500), asan(sys_('transfer', 8, 1, 1), 120, 3000),
             asan(dict(net('sock', 1, 1), args=dict(broker='@BIN:a_broker@')), 200, 5000), asan(dict(net('broker', 1, 1), args=dict(broker='@BIN:a_broker@')), 60, 2000)]


def tl(q, t): return dict(prog='h_tl', suite='tl', n=8, cases=dict(quick=q, thorough=t), chunk=20, args=dict(broker='@BIN:broker@'))


def mpi(run, q, t, delay='100:500', **kw):
    # the workload runs on top of the communication monitor; what the workload itself finds is decided by its own property
    return dict(asan(run, q, t), prog='m_' + run['prog'], env={'VP_PMPI': '7:' + delay}, fail_filter=lambda e: e['key'].startswith('mpi.') or 'nan' in e['msg'].lower(), **kw)


MPI_RUNS = [mpi(combi('combi', 1, 1), 240, 6000), mpi(combi('interp', 1, 1), 90, 2000), mpi(combi('sizes', 1, 1), 60, 2000),
            mpi(grid('hier', 1, 1), 180, 5000), mpi(grid('eval', 1, 1), 120, 4000), mpi(grid('plot', 1, 1), 90, 3000), mpi(grid('index', 1, 1), 90, 3000),
            mpi(dict(prog='h_dsg', suite='io', n=8), 120, 3000), mpi(dict(prog='h_third', suite='file', n=8), 60, 1500),
            mpi(mgr('ops', 1, 1), 180, 5000), mpi(mgr('resched', 1, 1), 90, 2000), mpi(mgr('fault', 1, 1), 90, 2000),
            mpi(sys_('stats', 8, 1, 1), 90, 2000), mpi(sys_('layout', 12, 1, 1), 60, 1000), mpi(sys_('transfer', 8, 1, 1), 120, 2000),
            mpi(tl(1, 1), 30, 800)]


def tsan(run, q, t, threads, **kw):
    return dict(asan(run, q, t), prog='t_' + run['prog'], env={'VP_GOMP': '%d:80' % (q + threads)}, threads=threads, thread_diff=True, crash_counts=False, hang_timeout=120, **kw)


TSAN_RUNS = [tsan(combi('combi', 1, 1), 250, 8000, 3), tsan(combi('combi', 1, 1), 50, 3000, 2, ), tsan(combi('interp', 1, 1), 120, 4000, 3), tsan(combi('sizes', 1, 1), 100, 3000, 4),
             tsan(grid('hier', 1, 1), 300, 10000, 4), tsan(grid('eval', 1, 1), 300, 10000, 3),
             tsan(dict(prog='h_dsg', suite='io', n=8), 60, 2000, 3), tsan(dict(prog='h_third', suite='file', n=8), 60, 2000, 3), tsan(mgr('ops', 1, 1), 160, 6000, 3)]

NOT_CLAIMED = {}
NOTE = ('holds on the executions explored; random inputs and configurations from the seed, serial reference computed '
        'independently of the code under test; trusts MPI, the compiler and the harness')

PLAN = {
    'C01': dict(rule=COMBI_RULE, technique='runtime monitor: serial combination reference and task event log as oracle on real multi-group runs', level_note=NOTE, runs=[combi('combi', 1500, 30000)]),
    'C02': dict(rule=GRID_RULE + '; plus bases and minimum levels per dimension', technique='runtime monitor: serial reference transform as oracle on generated grids', level_note=NOTE, runs=[grid('hier', 1200, 30000)]),
    'C03': dict(rule=GRID_RULE, technique='runtime monitor: partition and index-map consistency over gathered state', level_note=NOTE, runs=[grid('index', 1500, 30000)]),
    'C04': dict(rule=GRID_RULE + '; up to 60 evaluation points on grid points, faces, process borders and boundary', technique='runtime monitor: serial interpolation and norm oracle', level_note=NOTE, runs=[grid('eval', 1200, 30000), combi('interp', 600, 15000)]),
    'C05': dict(rule=SCHEME_RULE, technique='runtime monitor: brute-force inclusion-exclusion over the whole level box', level_note=NOTE, runs=[scheme('scheme', 1, 2000, 40000), scheme('file', 3, 1000, 10000)]),
    'C06': dict(rule=SCHEME_RULE, technique='runtime monitor: exactly-once ledger of task assignments over all groups and processes', level_note=NOTE, runs=[scheme('assign', 2, 2000, 30000), scheme('file', 3, 500, 10000)]),
    'C07': dict(rule='one case = number type, dimensions, levels, random subspace sizes per process (also none), kind of data (random, constant, special bit patterns), processes, file parts, existing files, buffering and chunk sizes; distinct by its full description', technique='runtime monitor: bit-exact round trips through every write and read path, damaged files injected', level_note=NOTE, runs=[dict(prog='h_dsg', suite='io', n=8, cases=dict(quick=900, thorough=15000), chunk=150)]),
    'C08': dict(rule='one case = systems, groups per system, file parts, names, carrying files between directories or one shared directory, delays, and a random scheme, boundaries, bases, decomposition, assignment and variant; distinct by description and by the observed order of token events', technique='runtime monitor: union combination as oracle, file event trace checked against the token protocol, injected delays', level_note=NOTE, runs=[dict(prog='h_third', suite='file', n=8, cases=dict(quick=300, thorough=6000), chunk=100)]),
    'C09': dict(rule='one case = sequence of transfers of all kinds and types in both directions, sizes, chunk sizes, byte order, fragmentation of every socket call, forwarding, and a disconnect at a random byte; distinct by its full description', technique='runtime monitor: socket calls replaced by fragmenting, delaying ones; both ends know the exact bytes', level_note=NOTE, progs=['broker'], par=8, runs=[net('sock', 1200, 20000)]),
    'C10': dict(rule='one case = sequence of exchanges of all kinds, payload sizes around the chunk size, delays of both systems, fragmentation inside broker and systems; distinct by description and the order the broker chose', technique='runtime monitor: real broker process between two monitored systems, payload and statistics ledger', level_note=NOTE, progs=['broker'], par=24, runs=[net('broker', 800, 15000)]),
    'C11': dict(rule=MGR_RULE, technique='runtime monitor: event ledger of every task run, operation effects against a serial reference, completion-time monitor under injected delays', level_note=NOTE, runs=[mgr('ops', 1200, 20000)]),
    'C12': dict(rule=SCHEME_RULE + '; ' + MGR_RULE, technique='runtime monitor: rescheduling decisions replayed against a load ledger; task moves in live manager runs against a serial reference', level_note=NOTE, runs=[scheme('resched', 1, 6000, 100000), mgr('resched', 800, 15000)]),
    'C13': dict(rule=SCHEME_RULE, technique='runtime monitor: recomputed coefficients against enumerated optimum and inclusion-exclusion; losses in live manager runs', level_note=NOTE, runs=[scheme('lp', 1, 4000, 60000), mgr('fault', 800, 15000)]),
    'C14': dict(rule='one case = processes, event names and attributes (also with special characters) per process, start/stop/attribute/delay sequence, partial writes; distinct by counts', technique='runtime monitor: strict JSON reader and shadow log with time brackets of every event', level_note=NOTE, runs=[sys_('stats', 8, 1500, 30000)]),
    'C15': dict(rule='one case = sequence of layouts (groups, processes, manager, output file parts, rejected ones); distinct by layout', technique='runtime monitor: all communicators of all processes gathered and compared with the layout rules', level_note=NOTE, runs=[sys_('layout', 12, 2000, 20000)]),
    'C16': dict(rule='one case = random parameters, tasks, containers of all types, sparse grids, files, sender and number of processes; distinct by parameter description', technique='runtime monitor: every process generates what was sent and compares what arrived', level_note=NOTE, runs=[sys_('transfer', 8, 2500, 30000)]),
    'C17': dict(rule='one case = one case of the workloads of C01-C16, C20-C22, with other random data; distinct by its full description', technique='AddressSanitizer and UndefinedBehaviorSanitizer (with library assertions) on the monitored workloads of all other properties', level_note=NOTE, progs=['a_broker'], runs=ASAN_RUNS),
    'C18': dict(rule='one case = one case of the workloads of C01-C04, C07, C08, C11, C20, C22, run with 2-4 threads per process, random assignment of loop chunks and random pauses at chunks, barriers and critical sections; distinct by its full description', technique='ThreadSanitizer with an own OpenMP runtime it can see through, on the monitored workloads; cases that fail with threads are compared with one thread', level_note=NOTE, runs=TSAN_RUNS),
    'C19': dict(rule='one case = one case of the multi-process workloads of C01-C16, C20-C23, with injected delays before and after MPI calls; distinct by its full description', technique='runtime monitor: profiling layer between the code and MPI checks every call, message, request and buffer (sequences per communicator compared between processes, checksums and poisoning of buffers in flight), with injected delays and AddressSanitizer', level_note=NOTE, progs=['broker'], runs=MPI_RUNS),
    'C20': dict(rule=GRID_RULE, technique='runtime monitor: byte-exact comparison of written files', level_note=NOTE, runs=[grid('plot', 1000, 20000)]),
    'C21': dict(rule=SCHEME_RULE, technique='runtime monitor: shadow history of all recorded durations', level_note=NOTE, runs=[scheme('load', 1, 1500, 30000)]),
    'C22': dict(rule=COMBI_RULE, technique='runtime monitor: independent point counting against registered sizes and predictions', level_note=NOTE, runs=[combi('sizes', 1200, 20000)]),
    'C23': dict(rule='one case = two systems (groups, processes), a scheme split between them, boundaries, bases, decomposition, sequence of manager operations with exchanges over the broker, chunk sizes, delays and fragmentation; distinct by its full description', technique='runtime monitor: two real manager/worker systems and the real broker process; union combination as oracle, broker statistics ledger', level_note=NOTE, progs=['broker'], runs=[tl(200, 3000)]),
}
