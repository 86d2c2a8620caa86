#!/usr/bin/env python3
"""replay.py FILE: rebuilds from /repo and re-runs the one recorded case of a violation."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engines
r = json.load(open(sys.argv[1]))
e = engines.get(r["property"], r["tier"])
exe = e["build"]()
exe = [exe] if isinstance(exe, str) else exe
env = dict(os.environ); env.update(e.get("env", {})); env.setdefault("ASAN_OPTIONS", "log_path=stderr:symbolize=1")
cmd = exe + ["--prop", r["property"], "--tier", r["tier"], "--replay", r["group"], str(r["idx"])]
if r["mode"] == "prefix": cmd += ["--prefix", str(r["start"])]
sys.exit(subprocess.run(cmd, env=env).returncode)
