#!/bin/bash
# builds the simulator once, in both profiles, so that later checks only rebuild what changed
TG_PROFILE=release; . "$(dirname "$0")/build.sh" || exit 1
TG_PROFILE=checked; tg_build || exit 1
TG_FEATURES=graph; tg_build
