#!/bin/bash
# build the module and run the given entries (development aid)
cd /verif/harness; T=target/sym
[ -n "$NOB" ] || { rm -f $T/release/deps/*.bc $T/release/deps/libharness* $T/release/libharness*; rm -rf $T/release/.fingerprint/harness-*
CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg vsym_symbolic --cfg yamux_verif -C save-temps -C no-vectorize-loops -C no-vectorize-slp" cargo rustc --release --lib --crate-type cdylib --target-dir $T 2>&1 | grep -E "^(error|warning: unused)" -A9 && [ ! -f $T/release/libharness.so ] && exit 1
BC=$(ls -t $T/release/deps/harness.*.lto.input.bc | head -1)
LT=~/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin
E=$(grep -hoE '^entry!\(\w+' src/*.rs | sed 's/entry!(//' | paste -sd,)
$LT/opt -passes='internalize,globaldce' -internalize-public-api-list=$E $BC -o target/x.bc && $LT/llvm-dis target/x.bc -o target/x.ll; }
for e in "$@"; do
 s=$(date +%s.%N)
 timeout ${SECS:-300} /verif/symex/target/release/symex target/x.ll --entry $e --workers 8 --max-secs ${SECS:-200} --timeout-ms 20000 --steps ${STEPS:-3000000} --max-viol ${MV:-6} --out /tmp/o_$e.json >/tmp/o_$e.log 2>&1 || tail -5 /tmp/o_$e.log
 python3 - $e $s <<'P'
import json,sys,time,re
d=json.load(open('/tmp/o_%s.json'%sys.argv[1])); e=(d if isinstance(d,list) else d.get('entries',[d]))[0]
print("%s %.1fs: paths %d done %d pruned %d q %d (%.1fs) viol %d err %d unk %d syms %d steps %d%s"%(e['entry'],time.time()-float(sys.argv[2]),e['paths'],e['done'],e['pruned'],e['queries'],e['solver_s'],e['nviol'],e['nerr'],e['unknown'],e['max_syms'],e['max_steps'],' UNFINISHED' if e['unfinished'] else ''))
print('   wit',e['witnesses'])
seen=set()
for v in e['violations']:
  if v['msg'] in seen: continue
  seen.add(v['msg'])
  print('   VIOL',v['msg'],[(n,x) for n,_,x in v['values']][:40],[re.sub(r'\(ll:\d+\)','',x)[-45:] for x in v['stack'][:3]])
for v in e['errors'][:3]: print('   ERR',v['msg'],[re.sub(r'^.*?(\w{5,}\d*\w*)$',r'\1',x)[-60:] for x in v['stack'][:4]])
P
done
