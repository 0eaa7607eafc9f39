#!/usr/bin/env python3
# Design-time helper: mutation runs in scratch copies. mut.py FILE.py [NAME-REGEX] ; FILE defines M = [(name, "P04[,P09]", file, old, new), ...]
import sys, os, re, subprocess, tempfile, shutil, time
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
g = {}; exec(open(sys.argv[1]).read(), g); pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else "")
V = tempfile.mkdtemp(dir="/tmp", prefix="mutv."); sh(f"cd /verif && tar c --exclude=./build/ir-* --exclude=./build/nat-* --exclude=./evidence --exclude=./.git . | tar x -C {V}") # checks of its own, so that other runs do not interfere
for name, props, f, old, new in g["M"]:
  if not pat.search(name): continue
  t = tempfile.mkdtemp(dir="/tmp", prefix="mutc.")
  sh(f"cd /repo && git archive HEAD lib emulator | tar x -C {t}")
  p = f"{t}/{f if f.startswith('lib') else 'lib/libloong/' + f}"; s = open(p).read()
  if s.count(old) != 1: print(name, "COUNT", s.count(old), flush=True); shutil.rmtree(t); continue
  open(p, "w").write(s.replace(old, new))
  for pr in props.split(","):
    t0 = time.time(); r = sh(f"cd {V} && VF_REPO={t} python3 vf.py check {pr}")
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    q = [l for l in r.stdout.splitlines() if " quick:" in l]
    why = ""
    m = re.search(r"replay=(\S+)", v[0]) if v else None
    if r.returncode == 1 and m:
      try: why = [l for l in open(m.group(1)) if "msg" in l or "message" in l or l.startswith("#")][0].strip()[:110]
      except Exception: pass
    print(f"{name} {pr} {'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'ERROR %d' % r.returncode} {time.time()-t0:.0f}s {why} {(re.search('unconfirmed=.*', q[0]).group(0) if q else r.stderr[-200:]) if r.returncode != 1 else ''}", flush=True)
  shutil.rmtree(t)
shutil.rmtree(V)
