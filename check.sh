#!/bin/bash
# Usage: check.sh C01            run the check of one property (VERIF_SEED, VERIF_TIER)
#        check.sh --replay FILE  re-execute a replay file
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONSTARTUP PYTHONHOME
export PYTHONPATH=$PWD
if [ "$1" = --replay ]; then exec /opt/venv/bin/python -W ignore -m sim.replay "$2"; fi
if [ "$1" = --selftest ]; then PYTHONHASHSEED=0 exec /opt/venv/bin/python -W ignore -m sim.selftest; fi
exec /opt/venv/bin/python -W ignore -m sim.main "$1"
