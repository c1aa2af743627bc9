#!/usr/bin/env python3
"""Runs one static check: check.py <ID> [quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":
	# the same exploration order on every run
	os.environ["PYTHONHASHSEED"] = "0"
	os.execv(sys.executable, [sys.executable] + sys.argv)

from sa import project            # noqa: E402


def known_findings():
	out = []
	p = os.path.join(HERE, "known_findings.txt")
	if os.path.exists(p):
		for line in open(p):
			line = line.strip()
			if line.startswith("finding:"):
				d = dict(x.split("=", 1) for x in line[8:].split(" | ")
				         if "=" in x)
				out.append({k.strip(): v.strip() for k, v in d.items()})
	return out


def is_known(v, pid, known):
	for k in known:
		if k.get("property") == pid and k.get("rule") == v["rule"] and \
				k.get("function") == v["function"] and \
				k.get("message") == v["message"]:
			return k
	return None


def main(argv):
	pid = argv[1]
	tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
	t0 = time.time()
	mod = importlib.import_module("sa.rules." + pid.lower())
	p = project.load()
	try:
		res = mod.run(p, tier)
	except project.AnalysisError as ex:
		# an anchor of the rule vanished: no silent pass
		print("ANALYSIS-ERROR property=%s %s" % (pid, ex))
		return 2
	except Exception:
		sys.stderr.write(traceback.format_exc()[-6000:])
		print("ANALYSIS-ERROR property=%s internal error" % pid)
		return 2
	known = known_findings()
	new, old = [], []
	for v in res.violations:
		(old if is_known(v, pid, known) else new).append(v)
	for v in old:
		print("KNOWN-FINDING: property=%s %s %s" %
		      (pid, v["where"], v["message"]))
	edir = os.environ.get("SA_OUT") or os.path.join(HERE, "evidence")
	os.makedirs(edir, exist_ok=True)
	rp = os.path.join(edir, pid + ".report.json")
	ev = {
		"property": pid, "tier": tier,
		"seed": int(os.environ.get("VERIF_SEED", "1") or 1),
		"level": "other",
		"coverage": {
			"explanation": "static analysis of the current source of %s; "
			"nothing is executed. %s" % (project.REPO, res.rule),
			"rule": res.rule,
			"obligations": res.obligations,
			"discharged": res.obligations - res.failed,
			"functions_analysed": len(res.functions),
			"functions": sorted(res.functions)[:200],
			"abstract_paths": res.paths,
			"abstract_steps": res.steps,
			"samples": res.sites[:60],
			"modules_parsed": len(p.modules),
			"notes": res.notes,
		},
		"assumptions": res.assumptions,
		"violations": len(new),
		"wall_s": round(time.time() - t0, 2),
	}
	with open(os.path.join(edir, pid + ".json"), "w") as f:
		json.dump(ev, f, indent=1)
	print("%s: %d obligations, %d functions, %d paths, %d findings, %.1fs" % (
		pid, res.obligations, len(res.functions), res.paths, len(new),
		time.time() - t0))
	n = sum("NOT DECIDED" in x for x in res.notes)
	if n:
		print("%s: %d parts not decided, see the evidence" % (pid, n))
	if new:
		with open(rp, "w") as f:
			json.dump({"property": pid, "violations": new}, f, indent=1)
		for v in new:
			print("  %s: [%s] %s (in %s)" % (v["where"], v["rule"],
			                                 v["message"], v["function"]))
		print("VIOLATION property=%s replay=%s" % (pid, rp))
		return 1
	if os.path.exists(rp):
		os.remove(rp)
	return 0


if __name__ == "__main__":
	sys.exit(main(sys.argv))
