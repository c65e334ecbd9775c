#!/bin/sh
# runs every check in parallel: runall.sh [tier]
cd "$(dirname "$0")/.." || exit 2
O=$(mktemp -d); node -e "import('./sa/laws/index.mjs').then(m=>console.log(Object.keys(m.LAWS).join('\n')))" | grep -E '^[A-Z][0-9]{2}$' | xargs -P 8 -I{} sh -c "node sa/run.mjs {} --tier ${1:-quick} > $O/{} 2>&1; echo \"{} rc=\$? \$(grep -E 'obligations' $O/{} | tail -1 | cut -c1-170) \$(grep -cE 'UNDECIDED' $O/{}) \$(grep -E 'VIOLATION' $O/{})\""
rm -rf "$O"
