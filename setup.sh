#!/bin/bash
# Builds the fact extractor and the dependencies of /repo's crate, once, offline.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'sa')
import facts
facts.drop(facts.extract())
print('setup done')
P
