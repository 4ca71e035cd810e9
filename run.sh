#!/bin/bash
# run.sh <property> <quick|thorough> [options of js/run.mjs]
cd "$(dirname "$0")"
PARTS="app ts"
case "$1" in
  P13) PARTS="app types" ;;
  P19|P20|P28|P33) PARTS="app ts cli tiny" ;;
  P16|P18|P32|P34|P35) PARTS="app ts cli" ;;
esac
./build.sh $PARTS || { echo "ERROR: build failed" >&2; exit 3; }
exec node --stack-size=4000 --max-old-space-size=6000 js/run.mjs "$@"
