#!/bin/bash
# Compiles the driver once, so that the checks find the build cache warm.
. /opt/vp/env.sh
cd /verif/harness && go build -o /dev/null . || exit 1
