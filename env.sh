# environment of every check: the same for each run, so that one seed is one execution
here="${here:-/verif}"
export DST_REPO="${DST_REPO:-/repo}"
export EIGEN3_PATH=/usr/include/eigen3 PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export YLEARN_LOG_LEVEL="${YLEARN_LOG_LEVEL:-WARN}"
export PYTHONPATH="$DST_REPO:$here"
export TQDM_DISABLE=1
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0="$DST_REPO"
PY=/opt/venv/bin/python
export PYTHONWARNINGS=ignore
