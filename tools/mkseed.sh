#!/bin/bash
# mkseed.sh <id> [2]: fills seeded/<id> with the demo library (main.go, patch.diff and meta.json are written by hand);
# with 2 the one that has fake nodes and the real program
S=/verif/seeded/$1; mkdir -p "$S"
if [ "$2" = 2 ]; then cp /verif/tools/demolib2/* "$S/"; else cp /verif/tools/demolib/{world.go,build.go,scene.go,demo.sh} "$S/"; fi
