#!/bin/bash
# check.sh PROPERTY  |  check.sh replay FILE  |  check.sh setup  |  check.sh determinism PROPERTY [RUNS]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONPATH=$PWD
case "$1" in
  replay|setup|determinism|one) exec /opt/venv/bin/python -P -m sim.main "$@" ;;
  *) exec /opt/venv/bin/python -P -m sim.main check "$1" ;;
esac
