"""C18: distribution of work over processes and reassembly of the results"""
import json
import os
import numpy as np
from hypothesis import strategies as st
from vpbt.core import law, case, seeds
from vpbt.laws.runcfg import FakeComm, run_mpi
from dga import mpi_aux


@law('C18', case(ntasks=st.one_of(st.integers(0, 40), st.integers(0, 5000)), size=st.one_of(st.integers(1, 12), st.integers(1, 300))), 300, 6000,
     'non-trivial: the number of tasks is no multiple of the number of processes')
def shares_partition_the_tasks(c, t):
    n, size = c['ntasks'], c['size']
    t.nontrivial(n % size != 0)
    t.label('fewer tasks than processes', n < size)
    nxt, lens = 0, []
    for r in range(size):
        d = mpi_aux.MpiDistributor(ntasks=n, comm=FakeComm(r, size))
        m = np.asarray(d.my_tasks)
        t.check(np.array_equal(m, np.arange(nxt, nxt + len(m))), f'rank {r} of {size} has tasks {m}, expected to start at {nxt}')
        t.check(d.my_size == len(m) and d.sizes[r] == len(m) and len(d.sizes) == size, 'sizes')
        t.equal(np.arange(n)[d.my_slice], m, 'slice')
        t.check(d.is_root == (r == 0) and d.ntasks == n and d.my_rank == r and d.mpi_size == size, 'bookkeeping')
        nxt += len(m)
        lens.append(len(m))
    t.check(nxt == n, f'{nxt} of {n} tasks distributed')
    t.check(max(lens) - min(lens) <= 1, f'unbalanced: {lens}')


sub = case(ntasks=st.one_of(st.integers(1, 4), st.integers(0, 30)), shape=st.lists(st.integers(1, 4), max_size=3), dtype=st.sampled_from(['complex', 'float', 'int']),
           root=st.integers(0, 5), seed=seeds, files=st.booleans(), name=st.sampled_from(['Q', 'FBZ', '']))


@law('C18', case(ranks=st.sampled_from([2, 3, 4, 5, 1]), cases=st.lists(sub, min_size=25, max_size=50)), 8, 120,
     'non-trivial: several processes')
def collective_operations_on_real_processes(c, t):
    """scatter, gather, allgather, allreduce, bcast and the files of the ranks, run under mpirun"""
    t.nontrivial(c['ranks'] > 1)
    path = t.tmp()
    os.mkdir(path + 'files')
    spec = dict(path=path + 'files/', out=path + 'out.json', cases=c['cases'])
    with open(path + 'in.json', 'w', encoding='utf-8') as f:
        json.dump(spec, f)
    run_mpi(t, c['ranks'], ['-m', 'vpbt.mpi_driver', path + 'in.json'], path, need=spec['out'])
    with open(spec['out'], encoding='utf-8') as f:
        res = json.load(f)
    errs = [e for r in res['errors'] for e in r]
    t.check(not errs, '; '.join(errs[:3]))
