#!/bin/bash
# debugging aid: tools/all.sh Cxx [seconds] [seed] [sim|thr] - collects violations by group, with symbols
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:symbolize=0
cd "$(dirname "$0")/.." && python3 tools/build.py ${4:-sim} && build/${4:-sim} --prop $1 --time ${2:-15} --seed ${3:-1} --runs 100000000 --all 1 2>&1 | cut -c1-1500 | python3 -c '
import re,subprocess,sys
for l in sys.stdin:
    m=re.search(r"\(/verif/build/(\w+)\+(0x[0-9a-f]+)\)",l)
    if m:
        o=subprocess.run(["addr2line","-Cfse","/verif/build/"+m[1],m[2]],capture_output=True,text=True).stdout.split("\n")
        l="    "+l.split()[0]+" "+o[0][:110]+" "+o[1]+"\n"
    sys.stdout.write(l)'
