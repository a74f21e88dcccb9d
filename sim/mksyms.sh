#!/bin/bash
# mksyms.sh: every runtime function sim_X replaces X in the code under test.
cd "$(dirname "$0")"
grep -hoE '\bsim_[A-Za-z0-9_]+\(' sched.cpp mem.cpp net.cpp io.cpp | sort -u | sed 's/($//' | grep -v '^sim_exit_run$' | while read s; do echo "${s#sim_} $s"; done
