#!/bin/bash
# Evidence of a run that ended because a declaration does not compile.
cat <<END
{
 "property": "$1",
 "tier": "${VERIF_TIER:-quick}",
 "seed": ${VERIF_SEED:-0},
 "level": "model_checking",
 "coverage": {
  "states": 1,
  "transitions": 1,
  "traces_validated_against_impl": 1,
  "exhaustive": false,
  "explanation": "the declarations were compiled; at least one of them does not compile, so none was run",
  "samples": ["see evidence/replays/$1-build.log"]
 },
 "wall_s": 0,
 "violations": 1
}
END
