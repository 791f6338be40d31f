#!/bin/bash
# nothing to build: the checks import the Python sources of /repo directly
cd "$(dirname "$0")" && mkdir -p evidence replays && VERIF_REPO="${VERIF_REPO:-/repo}" PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import bayes_optim; print('ok')"
