#!/bin/bash
# Nothing to build: checks that the tools are there and the code imports from /repo.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import mc.run, mc.jobs, mc.props; print('vrpy from', mc.run.vrpy.__file__)"
