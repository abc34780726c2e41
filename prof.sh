#!/bin/bash
cd "$(dirname "$0")"
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH=/repo/src /opt/venv/bin/python -W ignore -c "from mc import prof; prof.main('$1','${2:-quick}')"
