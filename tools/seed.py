#!/usr/bin/env python3
"""Development helper: turns an edit into /verif/seeded/<id>/ and confirms it
(patch applies, builds, stable tests pass, demo 0 -> nonzero).
usage: seed.py seeds.py [name...]     SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=python text)}
Applies the patch in a scratch copy for the demo and the checks, and for a
moment in /repo for the stable tests (test.sh is tied to /repo)."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

spec = importlib.util.spec_from_file_location("m", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
OUT = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# run with cwd /repo; all effects stay in a scratch folder of the demo itself
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/usenet:$PWD/scripts" TMPDIR="$T" DEMO_TMP="$T"
timeout 250 python3 "$D/demo.py"
"""


def sh(c, **k):
	return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


for name in sys.argv[2:] or list(m.SEEDS):
	s = m.SEEDS[name]
	d = tempfile.mkdtemp(prefix="seed")
	try:
		sh("git -C /repo archive HEAD | tar x -C %s" % d)
		sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", cwd=d)
		for f, old, new in s["edits"]:
			p = os.path.join(d, f)
			t = open(p, newline="").read()
			crlf = "\r\n" in t
			t = t.replace("\r\n", "\n")
			assert t.count(old) == 1, (name, f, t.count(old), old)
			t = t.replace(old, new)
			if crlf:
				t = t.replace("\n", "\r\n")
			open(p, "w", newline="").write(t)
		o = os.path.join(OUT, name)
		os.makedirs(o, exist_ok=True)
		diff = subprocess.run("git diff --binary", shell=True, cwd=d, capture_output=True).stdout
		open(o + "/patch.diff", "wb").write(diff)
		open(o + "/demo.sh", "w").write(DEMO_SH)
		os.chmod(o + "/demo.sh", 0o755)
		open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
		json.dump({"property": s["prop"], "needs": s["needs"],
		           "what_it_breaks": s["breaks"]},
		          open(o + "/meta.json", "w"), indent=1)
		e = dict(os.environ)
		a = sh("bash %s/demo.sh" % o, cwd="/repo")
		b = sh("bash %s/demo.sh" % o, cwd=d)
		print(name, "demo clean rc=%d patched rc=%d" % (a.returncode, b.returncode),
		      "" if a.returncode == 0 and b.returncode else
		      "BAD\n" + a.stdout[-600:] + a.stderr[-900:] + b.stdout[-600:] + b.stderr[-900:])
		c = sh("python3 /verif/check.py %s" % s["prop"], env=dict(
			os.environ, SA_REPO=d, SA_OUT=d + "/out"))
		print("   check %s rc=%d %s" % (s["prop"], c.returncode, "\n".join(
			x.strip()[:200] for x in c.stdout.splitlines() if x.startswith("  "))[:420]), c.stderr[-200:])
		if "notest" not in s:
			assert not sh("git -C /repo status --short").stdout
			try:
				r = sh("git -C /repo apply %s/patch.diff" % o)
				if r.returncode:
					print("   APPLY FAIL", r.stderr)
				r = sh("bash /tmp/runt.sh")
				print("   tests:", [x for x in r.stdout.splitlines() if "missing" in x])
			finally:
				sh("git -C /repo checkout -- .")
	finally:
		shutil.rmtree(d)
	sys.stdout.flush()
