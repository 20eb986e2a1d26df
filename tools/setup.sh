#!/bin/bash
# Nothing to prepare: every check builds what it needs from /repo (objects are cached by content in build/).
cd "$(dirname "$0")/.." && mkdir -p build evidence replays
