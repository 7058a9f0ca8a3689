#!/bin/bash
# Warms the Go build cache for the harness; the checks build what they need in any case.
exec "$(dirname "$0")/check.sh" setup quick
