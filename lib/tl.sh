#!/bin/bash
# tl.sh MODULE [cfg]: run TLC by hand in spec/
cd "$(dirname "$0")/../spec" && mkdir -p ../work && java -XX:+UseParallelGC -Xmx6g -Xss16m -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Dsun.stdout.encoding=UTF-8 -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -deadlock -noGenerateSpecTE -metadir ../work/tl_$$ -config ${2:-$1}.cfg $1.tla; rm -rf /verif/work/tl_$$
