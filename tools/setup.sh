#!/bin/bash
# builds the extractor (the checks also build it on demand)
cd "$(dirname "$0")/.." && bash tools/hx/build.sh
