#!/bin/bash
# run.sh <PROPERTY-ID> [quick|thorough]     decide one property by generated-input search
# run.sh --replay <file>                    re-run one saved case
cd "$(dirname "$(realpath "$0")")" || exit 2
export LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none
exec /opt/venv/bin/python -W ignore -m vpbt.run "$@"
