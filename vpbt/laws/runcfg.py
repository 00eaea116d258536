"""configurations and inputs of whole runs"""
import os
import signal
import subprocess
import sys
import numpy as np
from vpbt.core import HERE, HarnessError
from mpi4py import MPI
from dga import config
from dga import loggers


def conf_dict(nk, niw=-1, niv=-1, shell=0, asympt=-1, hr=(1.0, 0.0, 0.0), symmetries='two_dimensional_square', verbosity=1,
              input_path='./', nq=None, lambda_corr='spch', **kw):
    d = {
        'box_sizes': {'niw_core': niw, 'niv_core': niv, 'niv_shell': shell, 'niv_asympt': asympt},
        'lattice': {'symmetries': symmetries, 'type': 't_tp_tpp', 'hr_input': list(hr), 'nk': list(nk), 'nq': list(nq or nk)},
        'dga': {'lambda_corr': lambda_corr},
        'dmft_input': {'type': 'default', 'input_path': input_path, 'fname_1p': 'dmft.npy', 'fname_2p': '', 'do_sym_v_vp': True},
        'output': {'verbosity': verbosity},
    }
    for k, v in kw.items():
        d.setdefault(k, {}).update(v)
    return d


def dga_config(path, n=1.0, beta=5.0, u=1.0, mu=0.0, siw=None, giw=None, comm=None, folders=False, **kw):
    comm = comm or MPI.COMM_WORLD
    cfg = config.DgaConfig(conf_dict(input_path=path, **kw), comm=comm)
    cfg.set_system_parameter(dict(n=n, beta=beta, u=u, mu_dmft=mu, giw=giw, siw=siw))
    if folders:
        cfg.create_folders()
    else:
        cfg.output_path = path
        cfg.pdir = path
        cfg.eliash.output_path = path
        cfg.optics.output_path = path
    cfg.logger = loggers.MpiLogger(logfile=os.path.join(path, 'log.txt'), comm=comm, output_path=path)
    return cfg


class FakeComm:
    """rank `rank` of `size`, for code that needs only its own share and root-side work (no message passing)"""

    def __init__(self, rank=0, size=1):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, x, root=0):
        return x

    def barrier(self):
        pass

    Barrier = barrier


class no_plots:
    """pictures are not needed and dominate the run time: do not rasterise them (while figs.record() is active, it does that)"""
    recording = False

    def __enter__(self):
        from matplotlib.figure import Figure
        self.old = Figure.savefig, Figure.tight_layout
        if no_plots.recording:
            return self
        Figure.savefig = lambda *a, **k: None
        Figure.tight_layout = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        from matplotlib.figure import Figure
        import matplotlib.pyplot as plt
        Figure.savefig, Figure.tight_layout = self.old
        if not no_plots.recording:
            plt.close('all')


def symmetry_lists():
    from dga import brillouin_zone as bz
    return {'square': bz.two_dimensional_square_symmetries(), 'quasi1d': bz.quasi_one_dimensional_square_symmetries(),
            'inversion': bz.simultaneous_x_y_inversion(), 'none': ()}


def _launch(n, args, path, timeout, cwd):
    env = dict(os.environ)  # not what MPI_Init put into the C environment of this process
    env['PYTHONPATH'] = HERE
    with open(path + 'mpi.out', 'w', encoding='utf-8') as o, open(path + 'mpi.err', 'w', encoding='utf-8') as e:
        p = subprocess.Popen(['mpirun', '-n', str(n), sys.executable, '-W', 'ignore'] + args, cwd=cwd, stdout=o, stderr=e,
                             stdin=subprocess.DEVNULL, env=env, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGTERM)
            try:
                p.wait(timeout=10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            return None
        finally:
            if p.poll() is None:  # the alarm of the case
                os.killpg(p.pid, signal.SIGKILL)


def run_mpi(t, n, args, path, need=None, timeout=120, cwd=HERE):
    """run `python args` on n processes; the file `need` must exist afterwards (otherwise the processes died or hang)"""
    for _ in range(3):
        rc = _launch(n, args, path, timeout, cwd)
        if need is not None and os.path.exists(need):
            return rc
        if need is None and rc == 0:
            return rc
        with open(path + 'mpi.err', encoding='utf-8', errors='replace') as f:
            full = f.read()
        err = full[-1500:]
        if not any(x in full for x in ('orte_init failed', 'orte_session_dir', 'MPI_INIT failed', 'ORTE_ERROR_LOG')):
            break  # otherwise the MPI library could not start: nothing of the code has run
    if _launch(n, ['-c', 'from mpi4py import MPI; MPI.COMM_WORLD.Barrier()'], path, 60, cwd) != 0:
        raise HarnessError('mpirun does not work here: ' + err)
    t.check(False, f'{n} processes {"hang" if rc is None else f"ended with code {rc}"}: {err}')
