#!/bin/bash
# one configuration for every trace module
cd "$(dirname "$0")/../spec"
for f in T_*.tla; do
  printf 'SPECIFICATION TraceSpec\nCONSTANT Judge <- MyJudge\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n' > "${f%.tla}.cfg"
done
