#!/bin/bash
# Development tool (no check uses it): renews the patches of planted bugs whose context changed.
for d in /verif/seeded/*/; do
  git -C /repo apply --check $d/patch.diff 2>/dev/null && continue
  if (cd /repo && patch -s -p1 --no-backup-if-mismatch < $d/patch.diff); then
    git -C /repo diff > /tmp/new.diff && cp /tmp/new.diff $d/patch.diff && echo "renewed $d"
  else echo "CAN'T RENEW $d"; fi
  git -C /repo checkout -q -- .; git -C /repo clean -fdq crates
done
