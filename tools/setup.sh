#!/bin/bash
# Builds what the checks share: the harness and the REPL with the crate, in all
# configurations, and the operators that TLC calls.
cd "$(dirname "$0")" && exec python3 -c "
import vlib, repl
vlib.build()
repl.build_repls()
print('built')"
