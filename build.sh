#!/bin/bash
# builds the engine from the committed sources
cd /verif/engine && mkdir -p /verif/bin && GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /verif/bin/gosym.tmp . && mv /verif/bin/gosym.tmp /verif/bin/gosym
