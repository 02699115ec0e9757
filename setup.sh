#!/bin/bash
# Builds the framework (simulator, harness, preload library, CLI) from the committed files and /repo.
. "$(dirname "$0")/env.sh"
exec bash "$VERIF/build.sh" all
