#!/bin/bash
# Regenerates h6 from h4 (all but base.go and files named *_only.go) and the registries.
set -e
cd "$(dirname "$0")"
for f in h4/*.go; do
  b=$(basename $f)
  case $b in base.go|*_only.go|all.go) continue;; esac
  sed -e 's/^package h4/package h6/' -e 's#gopkg.in/addrs.v1/ipv4#gopkg.in/addrs.v1/ipv6#' $f > h6/$b
done
for d in h4 h6 hip; do
  {
    echo "package $d"; echo
    echo "// All maps harness names to functions (generated by gen.sh)."
    echo "var All = map[string]func(){"
    grep -hoE '^func [QT]_[A-Za-z0-9_]+\(\) ' $d/*.go | sed -E 's/^func ([A-Za-z0-9_]+)\(\) .*/\1/' | sort | while read n; do echo "	\"$d.$n\": $n,"; done
    echo "}"
  } > $d/all.go
done
gofmt -w h4 h6 hip
