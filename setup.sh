#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence replays
build
