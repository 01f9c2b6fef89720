#!/bin/bash
# Builds the verifier from the committed sources.
cd "$(dirname "$0")" || exit 2
mkdir -p .bin evidence
cd gocv && GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 go build -o ../.bin/gocv ./cmd/gocv
