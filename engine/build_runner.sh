#!/bin/bash
set -e
cd "$(dirname "$0")"
g++ -O1 -std=c++17 -w -rdynamic runner.cpp -o "$1" -ldl
