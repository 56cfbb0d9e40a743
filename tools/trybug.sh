#!/bin/bash
# trybug.sh ID [PROPERTY...]: demo without/with the patch and the quick checks with the patch (in /repo, undone afterwards)
id=$1; shift
props=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
R=${R:-/repo}; export VP_REPO=$R; cd $R; [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /verif/seeded/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id: demo on unchanged tree: $?"
git apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C $R checkout -q -- .' EXIT
bash /verif/seeded/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id: demo with the patch: $?"
tail -2 /tmp/demo.log
for p in $props; do (cd /verif; ./run.py $p 2>&1 | grep -v '^ "' | grep -E '^C|VIOL|^  \[' | cut -c1-300 | tail -4); done
