#!/bin/bash
# run.sh <property> [quick|thorough|--replay FILE] [scenario-substring]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LANG=C.UTF-8
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
unset PYTHONPATH
scratch=$(mktemp -d /tmp/verif_theano_XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
# interpreted Theano: the checks work on the symbolic graphs, replays are tiny
export THEANO_FLAGS=compiledir=$scratch,cxx=,device=cpu,linker=py,optimizer=None,mode=Mode
/opt/venv/bin/python -W ignore "$here/main.py" "$@" 2> >(grep -v "theano.tensor.blas" >&2)
rc=$?
exit $rc
