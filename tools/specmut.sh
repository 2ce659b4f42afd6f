#!/bin/bash
# specmut.sh [pattern]: for every line of specmut.list (that has the pattern),
# make that mistake in a copy of the specification and say what the model says.
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d /tmp/specmut.XXXXXX); trap 'rm -rf "$D"' EXIT
export JAVA_TOOL_OPTIONS=-Xss64m
found=0; all=0
while IFS=$'\t' read -r f e m; do
  case $f in \#*|"") continue;; esac
  all=$((all+1))
  rm -rf "$D/s"; cp -r "$V/spec" "$D/s"; cd "$D/s"
  sed -i "$e" "$f"
  if cmp -s "$f" "$V/spec/$f"; then echo "NO EDIT   $m: $f $e"; continue; fi
  t=${m%%_*}; t=${t%T}
  timeout 900 tlc -noGenerateSpecTE -workers 8 -metadir "$D/m" -config "$m.cfg" "$t.tla" >"$D/out" 2>&1
  if grep -q 'is violated' "$D/out"; then found=$((found+1)); echo "FOUND     $m: $f $e -- $(grep '^/\\ bad = {"' "$D/out" | tail -1 | cut -c1-100)"
  else echo "NOT FOUND $m: $f $e -- $(grep -E 'No error|Error' "$D/out" | head -1)"; fi
done < <(grep -- "${1:-}" "$V/tools/specmut.list")
echo "$found of $all found"
