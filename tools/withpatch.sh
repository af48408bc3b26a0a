#!/bin/bash
# withpatch.sh [-R] PATCH ID...   run checks against a copy of /repo with PATCH applied (the copies are removed).
rev=; [ "$1" = -R ] && { rev=-R; shift; }
p=$(realpath "$1"); shift
t=$(mktemp -d /tmp/withpatch.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
git clone -q /repo "$t/repo" && cp -a "${VSRC:-/verif}" "$t/verif" || exit 2
rm -rf "$t/verif/.git" "$t/verif/seeded"
git -C "$t/repo" apply $rev "$p" || exit 2
sed -i "s#=> /repo#=> $t/repo#" "$t/verif/go.mod"
for id in "$@"; do
	bash "$t/verif/check.sh" $id 2>&1 | tail -${LINES_OUT:-7}
	echo "== $id exit ${PIPESTATUS[0]}"
done
