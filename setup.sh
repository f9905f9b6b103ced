#!/bin/bash
# Builds everything the checks need, once.
cd "$(dirname "$0")" && bash ./build.sh && bash ./build_py.sh
