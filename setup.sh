#!/bin/bash
# Builds both simulator binaries once, to fill the build cache.
set -e
cd /verif
./build.sh
./build.sh race
