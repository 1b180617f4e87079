#!/bin/bash
# (re)creates go.mod/go.sum of the checker module from /repo's
cd "$(dirname "$0")"
{ echo "module github.com/mitch000001/go-hbci/verifmc"; echo; echo "go 1.18"; echo
  echo "require github.com/mitch000001/go-hbci v0.0.0"
  echo "replace github.com/mitch000001/go-hbci => /repo"
  sed -n '/^require (/,/^)/p' /repo/go.mod
} > go.mod
cp /repo/go.sum go.sum
