#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain works and that the explorer enumerates exactly the space it is given."""
import os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="mcv-setup-")
src = r'''
#include "mc.hpp"
int main(int a, char** v) {
  return mc::main_check(a, v, {"SELF", "self test", "3*(2+4)*2", "", {}}, [](mc::Ctx& c) {
    int x = c.choose(3); c.shard(); int y = c.choose(2); int z = c.choose(y ? 4 : 2); int w = c.choose(2);
    c.state(uint64_t(x * 1000 + y * 100 + z * 10 + w)); c.transition(); c.check(true, "x");
  });
}
'''
try:
    open(d + "/t.cpp", "w").write(src)
    subprocess.check_call(["g++", "-std=gnu++17", "-w", "-I", here + "/harness", d + "/t.cpp", "-o", d + "/t"])
    e = dict(os.environ, VERIF_DIR=d, MC_SCRATCH=d, VERIF_TIER="quick")
    out = subprocess.run([d + "/t"], env=e, capture_output=True, text=True).stdout
    ok = "36 executions, 36 states, 36 transitions" in out
    print(out.strip(), "ok" if ok else "UNEXPECTED")
    sys.exit(0 if ok else 1)
finally:
    shutil.rmtree(d, ignore_errors=True)
