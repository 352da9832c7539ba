#!/bin/bash
# Nothing to build ahead of time: every check encodes /repo's sources itself. Only says what is missing.
for t in cbmc goto-cc goto-instrument gcc python3 objcopy nm; do
	command -v $t >/dev/null || { echo "missing: $t"; exit 1; }
done
cbmc --version
