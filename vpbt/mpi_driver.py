"""runs inside mpirun: evaluates a batch of distribution cases on every rank, rank 0 writes the list of failures"""
import json
import os
import sys
import traceback

import numpy as np
from vpbt.core import rng
from mpi4py import MPI
from dga import mpi_aux


def array(seed, shape, dtype):
    r = rng(seed)
    if dtype == 'complex':
        return r.standard_normal(shape) + 1j * r.standard_normal(shape)
    if dtype == 'float':
        return r.standard_normal(shape)
    return r.integers(-10 ** 6, 10 ** 6, shape)


def one(c, comm, path, err):
    rank, size, n = comm.Get_rank(), comm.Get_size(), c['ntasks']
    d = mpi_aux.create_distributor(ntasks=n, comm=comm, output_path=path, name=c['name']) if c['files'] else \
        mpi_aux.MpiDistributor(ntasks=n, comm=comm)

    def chk(ok, msg):
        if not ok:
            err.append(f'rank {rank} of {size}, {n} tasks: {msg}')

    sl = comm.allgather([int(x) for x in d.my_tasks])
    chk(sum(sl, []) == list(range(n)), f'shares {sl} are not all tasks in order')
    chk(max(map(len, sl)) - min(map(len, sl)) <= 1, f'unbalanced shares {sl}')
    chk(list(d.sizes) == [len(x) for x in sl] and d.my_size == len(sl[rank]) and d.ntasks == n and d.my_rank == rank and
        d.mpi_size == size and d.is_root == (rank == 0), 'bookkeeping')
    root = c['root'] % size
    full = array(c['seed'], (n,) + tuple(c['shape']), c['dtype'])
    given = full.copy() if rank == root else None
    mine = d.scatter(given, root=root)
    chk(given is None or np.array_equal(given, full), 'scatter changes the data of the root')
    chk(mine.dtype == full.dtype and np.array_equal(mine, full[d.my_slice]), 'scatter')
    work = full[d.my_slice].copy()
    g = d.gather(work, root=root)
    if rank == root:
        chk(g.dtype == full.dtype and np.array_equal(g, full), 'gather')
    chk(np.array_equal(work, full[d.my_slice]), 'gather changes the shares')
    g = d.allgather(work)
    chk(g.dtype == full.dtype and np.array_equal(g, full), 'allgather')
    part = array(c['seed'] + 7 * rank + 1, tuple(c['shape']) or (1,), c['dtype'])
    want = sum(array(c['seed'] + 7 * k + 1, tuple(c['shape']) or (1,), c['dtype']) for k in range(size))
    part0 = part.copy()
    got = d.allreduce(part)
    chk(np.array_equal(part, part0), 'allreduce changes the contribution of a process')
    chk(got.dtype == part.dtype and got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-12), 'allreduce')
    obj = {'x': [1, c['seed']], 'y': 'text'}
    chk(d.bcast(obj if rank == root else None, root=root) == obj, 'bcast')
    if c['files']:
        for k in range(2):  # reopened files keep what was stored, also when opened by another distributor
            if k and c['seed'] % 2:
                d = mpi_aux.create_distributor(ntasks=n, comm=comm, output_path=path, name=c['name'])
            with d as file:
                for i, iq in enumerate(d.my_tasks):
                    file[f'/part{k}/q{iq:03d}'] = full[iq] if k == 0 else work[i]
        comm.Barrier()
        if rank == root:
            import h5py
            seen = []
            for k in range(size):
                fname = os.path.join(path, f'{c["name"]}Rank{k:05d}.hdf5')
                chk(os.path.exists(fname), f'{fname} missing')
                with h5py.File(fname, 'r') as f:
                    for p in ('part0', 'part1'):
                        keys = sorted(f[p].keys()) if p in f else []
                        chk(keys == [f'q{i:03d}' for i in sl[k]], f'{fname}/{p} holds {keys}')
                        for q in keys:
                            chk(np.array_equal(f[p][q][()], full[int(q[1:])]), f'content of {p}/{q}')
                    seen += sl[k]
            chk(seen == list(range(n)), 'files do not cover the tasks')
        comm.Barrier()
        if rank == root:
            d.delete_file()
        comm.Barrier()
        left = sorted(os.listdir(path))
        chk(left == sorted(f'{c["name"]}Rank{k:05d}.hdf5' for k in range(size) if k != root), f'delete_file left {left}')
        comm.Barrier()
        d.delete_file()
        comm.Barrier()


def main():
    comm = MPI.COMM_WORLD
    with open(sys.argv[1], encoding='utf-8') as f:
        spec = json.load(f)
    err = []
    for i, c in enumerate(spec['cases']):
        try:
            one(c, comm, spec['path'], err)
        except Exception:  # noqa
            err.append(f'rank {comm.Get_rank()}: case {i} {c}: {traceback.format_exc(limit=-4)}')
            # the ranks are out of step now: report and stop everything
            with open(spec['out'], 'w', encoding='utf-8') as f:
                json.dump(dict(errors=[err], done=False), f)
            comm.Abort(3)
        comm.Barrier()
    all_err = comm.gather(err, root=0)
    if comm.Get_rank() == 0:
        with open(spec['out'], 'w', encoding='utf-8') as f:
            json.dump(dict(errors=all_err, done=True), f)


if __name__ == '__main__':
    main()
