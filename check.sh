#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /usr/bin/env python3 -m vf.main "$@"
