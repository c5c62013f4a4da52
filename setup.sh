#!/bin/bash
# Builds the framework from the committed files (offline).
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
./build-sim.sh race
