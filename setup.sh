#!/bin/bash
# nothing to build: pure Python, imported from /repo's working tree by each check
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
chmod +x check
PYTHONDONTWRITEBYTECODE=1 /opt/pypyvenv/bin/python -c "import numpy, pandas, openpyxl, matplotlib, plotly; print('ok')"
