#!/bin/bash
# conform.sh: the engine's execution of harness/hlib must print what the compiled program prints, on every path
cd /verif/harness || exit 2
d=$(mktemp -d); r=0
for f in ${*:-$(grep -hoE '^func [A-Z][A-Za-z]*\(\)' hlib/hlib.go | sed 's/func //; s/()//')}; do
  mkdir -p $d/m && cat > $d/m/main.go <<G
package main
import "verifharness/hlib"
func main() { hlib.$f() }
G
  echo "{\"Replace\": {\"/verif/harness/zz_conform/main.go\": \"$d/m/main.go\"}}" > $d/o.json
  SYM_DEBUG=1 GOFLAGS= go run -overlay $d/o.json ./zz_conform > $d/native 2>$d/nerr
  /verif/bin/gosym run hlib.$f -j 1 -debug -nonative > $d/raw 2>&1
  python3 - "$f" $d/native $d/raw <<'P' || r=1
import sys,re,json
f,n,raw=sys.argv[1:]
nat=open(n).read().splitlines()
text=open(raw).read()
blocks=[]
for l in text.splitlines():
    if l.startswith("DBG "):
        l=l[4:].rstrip(" ")
        if nat and l==nat[0]: blocks.append([])
        if blocks: blocks[-1].append(l)
bad=[b for b in blocks if b!=nat]
uns=re.search(r'"unsupported": \{\n(.*)',text)
if nat and blocks and not bad and not uns and '"kind"' not in text:
    print(f,"ok",len(nat),"lines on",len(blocks),"paths"); sys.exit(0)
print(f,"DIFFERS")
b=bad[0] if bad else (blocks[0] if blocks else [])
import difflib
for l in list(difflib.unified_diff(nat,b,lineterm="",n=0))[2:14]: print("   ",l[:200])
m=re.search(r'"unsupported": \{\s*"([^}]*)',text[text.find('"path_ends"')+200:])
if m: print("    unsupported:",m.group(1)[:400])
m=re.search(r'(panic: .*)|"msg": (.*)',text)
if m: print("   ",m.group(0)[:300])
sys.exit(1)
P
done
# operations with symbolic operands must give what they give with each concrete value (assertions of the harness)
if [ $# = 0 ]; then
  for t in Int8 Int16 Int32 Int64 Uint8 Uint16 Uint32 Uint64; do
    /verif/bin/gosym run hlib.Sym$t -time 600 -nonative > $d/s 2>&1
    if grep -q '"compared": 1352' $d/s && grep -q '"timed_out": false' $d/s && grep -q '"unknown": 0' $d/s && ! grep -q '"kind"\|"unsupported"' $d/s; then
      echo "Sym$t ok"
    else
      echo "Sym$t DIFFERS"; grep -m3 '"msg"\|unsupported' $d/s; r=1
    fi
  done
fi
rm -rf "$d"; exit $r
