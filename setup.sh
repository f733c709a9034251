#!/bin/bash
# nothing is installed: checks that the interpreter, the repository and z3 are importable
cd "$(dirname "$0")" || exit 3
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu /opt/venv/bin/python -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import emlp, z3; print('emlp', emlp.__file__, 'z3', z3.get_version_string())"
