#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decide one property on /repo's current tree
cd "$(dirname "$0")" && exec python3 -m tsa.run "$@"
