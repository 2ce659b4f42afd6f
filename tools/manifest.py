#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks
(run by hand after a change; the result is committed)."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
listed = subprocess.run([here + "/.build/vh", "list"], capture_output=True, text=True,
                        env=dict(os.environ, VERIF_HOME=here)).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in listed:
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh check " + i,
            "thorough_cmd": "./run.sh check %s thorough" % i,
            "technique": "TLA+ specification checked with TLC; trace validation of the running server against it, replay of model behaviours",
            "level": "model_checking",
            "level_note": "The TLA+ specification (spec/) is model checked within the bounds of its configurations, and the real server, built from /repo, is driven through model-generated and random scenarios whose complete recorded behaviour TLC checks against the specification. Trusts the stand-in for the missing smtpd package, the recording harness and the environment model (DNS, clock, files); scenarios are a sample, bounded by DESIGN.md's tables.",
        })
    else:
        na.append({"property": i, "reason": "check still being built"})
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks build it unchanged, with an overlay of the Go standard library (tools/overlay.go) that makes the clock, addresses and file faults controllable", "source_commits": []},
    "not_applicable": na,
    "notes": "All checks: ./run.sh check <id> [thorough]; ./run.sh replay <file> re-runs a reported violation. known_findings.json lists findings and fixed defects.",
}, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
