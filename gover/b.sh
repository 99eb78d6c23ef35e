#!/bin/bash
cd /verif/gover && GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -mod=vendor -o /tmp/gover .
