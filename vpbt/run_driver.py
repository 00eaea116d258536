"""runs inside mpirun: a whole run (or the analytic continuation of one) on every process, without pictures"""
import sys

from mpi4py import MPI
from vpbt.laws import c23


def main():
    kind, path, done = sys.argv[1:4]
    with c23.stubbed(False):
        if kind == 'run':
            from dga import dga_main
            sys.argv = ['dga_main', '-p', path]
            dga_main.main()
        else:
            from dga import dga_max_ent
            dga_max_ent.main(path=path, comm=MPI.COMM_WORLD)
    MPI.COMM_WORLD.Barrier()
    if MPI.COMM_WORLD.Get_rank() == 0:
        with open(done, 'w', encoding='utf-8') as f:
            f.write('done')


if __name__ == '__main__':
    main()
