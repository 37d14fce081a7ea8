export PYTHONPATH=${TCV_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell PYTHONWARNINGS=ignore
