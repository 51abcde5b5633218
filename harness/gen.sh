#!/bin/bash
# Regenerates cmd/replay/registry.go from the harness function names.
cd "$(dirname "$0")"
{
echo "// Code generated by gen.sh. DO NOT EDIT."
echo
echo "package main"
echo
echo 'import "verif/harness/h"'
echo
echo "var harnesses = map[string]func(){"
grep -hoE '^func C[0-9]{2}_[A-Za-z0-9_]+\(\)' h/*.go | sed -E 's/^func (C[0-9]{2}_[A-Za-z0-9_]+)\(\)/\1/' | sort | sed -E 's/(.*)/\t"\1": h.\1,/'
echo "}"
} > cmd/replay/registry.go
gofmt -w cmd/replay/registry.go
