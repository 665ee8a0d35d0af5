#!/bin/bash
# Warms the build cache; the checks build by themselves what they need.
. /opt/vp/env.sh
cd /verif/harness && go build -o /dev/null ./cmd/... && echo setup ok
