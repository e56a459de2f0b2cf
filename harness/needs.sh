#!/bin/bash
# Says which extra build a property needs.
case "$1 $2" in
  "plain C01"|"plain C05"|"plain C10"|"plain C17"|"plain C27"|"plain C29"|"plain C31"|"plain C39") exit 0;;
  "bare C30"|"cli C20"|"python C21"|"web C22") exit 0;;
esac
exit 1
