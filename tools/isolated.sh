#!/bin/bash
# isolated.sh CMD...: runs CMD where /repo is a scratch copy of /repo (in a
# mount namespace of its own), so that the real one stays as it is.
COPY=$(mktemp -d /tmp/isolated.XXXXXX)
trap 'rm -rf "$COPY"' EXIT
cp -a /repo "$COPY/repo"
unshare -Urm bash -c 'mount --bind "$0" /repo && shift 0 && "$@"' "$COPY/repo" "$@"
