#!/bin/bash
# Parse a specification module and print only the errors.
cd "$(dirname "$0")/../spec" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$1" 2>&1 | grep -A6 -iE "error|\*\*\*|line [0-9]+, col" | head -${2:-20}
