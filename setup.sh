#!/bin/bash
# Confirms that the monitors and the commands build offline from /repo.
set -e
cd "$(dirname "$0")"
exec ./check.sh A06
