#!/bin/bash
# usage: b.sh entry... -- extra args
cd /verif/harness
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS='-C save-temps -C embed-bitcode=yes --cfg curve25519_dalek_backend="serial"'
cargo build --release --offline --target-dir /verif/build/target$L ${L:+--features legacy} 2>&1 | grep -E "^error" -A9| head -60
BC=$(ls -t /verif/build/target$L/release/deps/harness-*.lto.after-restriction.bc | head -1)
A=(); for e in "$@"; do if [ "${e#h_}" != "$e" ]; then A+=(--entry $e); else A+=($e); fi; done
cd /verif; time ./build/sx --bc $BC --out /tmp/o.json --jobs 8 "${A[@]}"
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json'))
for k in o:
    if k in('samples','functions','reach_models','violations'): continue
    print(k,o[k])
print('nfuncs',len(o['functions']))
for v in o['violations']:
    print('VIOL',v['entry'],v['label'])
    for m in v['models'][:4]: print('   ',m['inputs'],[(a,bytes.fromhex(b)) for a,b in m['obs']],m['outcome'][:300])
P
