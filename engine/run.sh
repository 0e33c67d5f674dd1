#!/bin/bash
export PYTHONHASHSEED=0; cd /verif/engine && exec python3-vt verify.py ${DUMP:-/verif/.cache/mir.json} "$@"
