#!/bin/bash
# run.sh <property id>: runs checks/<id>.py against /repo's working tree.
cd "$(dirname "$0")" || exit 2
id="$1"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  CUDA_VISIBLE_DEVICES= HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 JAX_PLATFORMS=cpu \
  TOKENIZERS_PARALLELISM=false PYTHONHASHSEED=0 TQDM_DISABLE=0 \
  PYTHONPATH="/repo:$PWD" PYTHONWARNINGS=ignore
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
lower=$(echo "$id" | tr 'A-Z' 'a-z')
exec timeout -k 10 $([ "$VERIF_TIER" = thorough ] && echo 6000 || echo 870) \
  /opt/venv/bin/python -X faulthandler "checks/$lower.py"
