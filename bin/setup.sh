#!/bin/bash
# Builds the framework offline: the Java value overrides of module Rat, for TLC.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/classes out evidence
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build/classes spec/java/Rat.java
