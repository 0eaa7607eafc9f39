#!/usr/bin/env python3
# Design-time helper: plant a bug. seed.py new FILE.py -> builds /verif/seeded/<id>/ ; seed.py test ID... -> confirm in a scratch copy; seed.py try ID [check args] -> run the property's check against it
import sys, os, json, subprocess, shutil, tempfile
S = "/verif/seeded"
HDR = r'''#pragma once
#include <libloong/machine.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
using namespace loongarch;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
// a machine with a plain arena (read-only from ro, writable from data), no program
struct M0 { MachineOptions o; Machine m; M0(uint64_t size = 1 << 20, uint64_t ro = 0x1000, uint64_t data = 0x4000) : m{std::string_view{}, opts()} { m.memory.allocate_custom_arena(size, ro, data); m.set_options(std::make_shared<MachineOptions>(opts())); }
  static MachineOptions opts() { MachineOptions o; o.use_shared_execute_segments = false; return o; }
  void exec(uint32_t w) { m.cpu.execute(la_instruction{w}); } };
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
'''
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
L=/repo/_build/main
g++ -std=c++20 -O1 -w -I/repo/lib -I$L/lib -I"$d" "$d/demo.cpp" %s $L/lib/libloong.a -lpthread -o "$t/demo" || exit 9
cd "$t" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def new(spec):
  g = {}; exec(open(spec).read(), g)
  for b in g["BUGS"]:
    d = f"{S}/{b['id']}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp"); 
    sh(f"git -C /repo worktree prune; cd /repo && git archive HEAD lib emulator | tar x -C {t} && cd {t} && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x")
    for f, a, c in b["edits"]:
      p = f"{t}/{f}"; s = open(p).read(); assert s.count(a) == 1, (b["id"], f, a, s.count(a)); open(p, "w").write(s.replace(a, c))
    p = sh(f"cd {t} && git diff").stdout; assert p; open(d + "/patch.diff", "w").write(p); shutil.rmtree(t)
    open(d + "/demo.cpp", "w").write('#include "d.hpp"\n' + b["demo"].lstrip()); open(d + "/d.hpp", "w").write(HDR)
    open(d + "/demo.sh", "w").write(SH % b.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1); print("wrote", d)
def test(ids):
  # all in /tmp/seedcopy, a copy of the repo mounted over /repo in a private namespace
  for i in ids:
    r = sh(f"git -C /repo apply {S}/{i}/patch.diff"); 
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
    b = sh("bash /opt/vp/build.sh 2>&1 | tail -1").stdout.strip(); t = sh("bash /opt/vp/test.sh /tmp/st.json 2>&1 | tail -1").stdout.strip()
    d = sh(f"cd /repo && bash {S}/{i}/demo.sh"); sh("git -C /repo checkout -- .")
    print(i, b, "|", t, "| demo with patch:", d.returncode, d.stdout[-150:].strip(), d.stderr[-200:].strip(), flush=True)
  print(sh("bash /opt/vp/build.sh 2>&1 | tail -1").stdout.strip())
  for i in ids:
    d = sh(f"cd /repo && bash {S}/{i}/demo.sh"); print(i, "demo clean:", d.returncode, d.stdout[-200:].strip(), d.stderr[-300:].strip(), flush=True)
def attempt(i, args):
  prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
  assert not sh(f"git -C /repo apply {S}/{i}/patch.diff").returncode
  r = sh(f"cd /verif && python3 vf.py check {prop} {' '.join(args)}"); sh("git -C /repo checkout -- .")
  print(i, prop, "exit", r.returncode, [l[:200] for l in r.stdout.splitlines() if "VIOLATION" in l or "quick:" in l or "thorough:" in l], r.stderr[-300:], flush=True)
if sys.argv[1] == "new": new(sys.argv[2])
elif sys.argv[1] == "test": test(sys.argv[2:])
elif sys.argv[1] == "try": attempt(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "tryall":
  for i in sorted(os.listdir(S)): attempt(i, [])
