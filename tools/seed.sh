#!/bin/bash
# seed.sh mk ID PROPERTY PKG [FLAGS]: takes the uncommitted difference of /tmp/w as the patch and
#   /tmp/w/demo_test.go as the demonstration; seed.sh verify ID...: confirms and runs the checks
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
case $1 in
new) rm -rf /tmp/w; cp -a /repo /tmp/w; git -C /tmp/w checkout -q -- . ;;
mk) d="$here/seeded/$2"; mkdir -p "$d"; git -C /tmp/w diff > "$d/patch.diff"
  sed -e "s#@PKG@#$4#" -e "s#@FLAGS@#$5#" "$here/tools/demo_template.sh" > "$d/demo.sh"; chmod +x "$d/demo.sh"
  if [ "$4" = py ]; then rm -f "$d/demo.sh"
    printf '%s\n' '#!/bin/bash' '# Runs with the repository as working directory. Exit 0: the property holds in' '# the demonstrated situation; non-zero: it does not. Nothing leaves this process.' 'here="$(cd "$(dirname "$0")" && pwd)"' 'timeout 200 python3 -B "$here/demo.py.txt"' > "$d/demo.sh"; chmod +x "$d/demo.sh"
    cp /tmp/w.demo_test.go "$d/demo.py.txt"
  else cp /tmp/w.demo_test.go "$d/demo_test.go.txt"; fi ;;
verify) shift; for id in "$@"; do
  d="$here/seeded/$id"; w=/tmp/sv.$id; rm -rf $w; cp -a /repo $w; git -C $w checkout -q -- .
  (cd $w && "$d/demo.sh") > /tmp/sv.$id.clean 2>&1; c=$?
  git -C $w apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  (cd $w/go && go build ./... ) > /tmp/sv.$id.build 2>&1; b=$?
  sed "s#/repo#$w#g" /opt/vp/test.sh > /tmp/sv.$id.test.sh; bash /tmp/sv.$id.test.sh /tmp/sv.$id.json >/dev/null 2>&1
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));s=set(b['stable']);o=json.load(open('/tmp/sv.$id.json'));print(len(s-set(o['passed'])))")
  (cd $w && "$d/demo.sh") > /tmp/sv.$id.bad 2>&1; x=$?
  one() { p=$1; w=$2; id=$3; here=$4
    case $p in
    C34|C35|C39|C40|C41) REPO=$w VERIF_OUT=/tmp/sv.$id.v.$p python3 -B "$here/checker_py/check.py" $p quick > /tmp/sv.$id.$p.out 2>&1; r=$? ;;
    *) REPO=$w "$here/bin/crlitecheck" -repo $w -verif /tmp/sv.$id.v.$p -tier quick $p > /tmp/sv.$id.$p.out 2>&1; r=$? ;;
    esac
    [ $r = 1 ] && echo -n " $p"; [ $r -gt 1 ] && echo -n " $p(rc=$r)"; rm -rf /tmp/sv.$id.v.$p; }
  export -f one
  caught=$(python3 -c "import json;print('\n'.join(c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']))" | xargs -P 7 -I{} bash -c "one {} $w $id $here")
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  echo "$id prop=$prop clean_demo=$c build=$b missing_stable=$t bad_demo=$x caught:$caught"
  rm -rf $w
done ;;
esac
