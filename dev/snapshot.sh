#!/bin/bash
# take the reviewed reference from /repo's HEAD (after reviewing it)
cd "$(dirname "$0")/.." || exit 1
rm -rf /verif/sa/ref; mkdir -p /verif/sa/ref
for f in $(python3 -c "from sa.prog import FILES; print(*FILES)"); do mkdir -p /verif/sa/ref/$(dirname $f); git -C /repo show HEAD:$f > /verif/sa/ref/$f; done
git -C /repo ls-files '*.py' > /verif/sa/ref/ALLFILES
git -C /repo log --format=%H -1 > /verif/sa/ref/COMMIT
