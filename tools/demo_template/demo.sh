#!/bin/bash
. "$(dirname "$0")/common.sh"
run_demo
