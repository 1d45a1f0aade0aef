#!/bin/bash
# Builds the harness once; every check rebuilds what depends on /repo.
cd "$(dirname "$0")/mc" && ./build.sh mc && ./build.sh asan && ./build.sh sig
