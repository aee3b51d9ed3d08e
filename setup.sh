#!/bin/bash
# Builds the AST exporter and exports /repo's current tree once (checks re-export whatever has changed).
cd "$(dirname "$0")" || exit 1
python3 -m nfa.engine core debug mpi mpithread err errdebug errtrace errheader errheaderdebug errheadertrace full names solvers
