#!/bin/bash
# runs a check and shows the keys and details of what it reports
cd /verif; rm -rf /verif/replays/$1; (time timeout 900 bash run.sh "$@") 2>&1 | grep -v "^VIOLATION\|^user\|^sys\|^$" | cut -c1-250 | tail -${2:-25} ;  for f in $(ls replays/$1/* 2>/dev/null| head -14); do grep '"key"\|"detail"' $f | cut -c1-900; done
