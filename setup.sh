#!/bin/bash
# Builds the harness once against /repo, to show that it builds.
exec "$(dirname "$0")/check.sh" --build-only
