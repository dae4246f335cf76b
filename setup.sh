#!/bin/bash
# Everything is built by each check from /repo's working tree; this only says
# early whether that works.
cd "$(dirname "$0")" || exit 1
here=$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
. ./build.sh && build_mc "$here" "$work" none
