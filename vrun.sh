#!/bin/bash
# dev helper: generate and verify
/verif/vx/target/debug/vx --out /tmp/vxout $VXARGS && cd /tmp/vxout && python3 -c "
import json; r=json.load(open('report.json')); print(r['fatal']) if r['fatal'] else None; [print(f['key'],f['problems']) for f in r['functions'] if f['problems']]"; verus --crate-type=lib --edition 2024 --triggers-mode silent lib.rs "$@" 2>&1
