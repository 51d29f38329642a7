#!/usr/bin/env python3
"""Prints the go build -overlay file of a simulator binary.

hook: the bridge package that reaches /repo's internal packages.
race: the standard library without the random behaviour (sync.Pool) and without
the hidden synchronisation (fmt's pool of printers) of race-detector builds.
"""
import json, os, subprocess, sys
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
repo = "/repo"
rep = {}
if sys.argv[1] == "hook":
    rep[repo + "/verifbridge/bridge.go"] = root + "/sim/bridge/lib.go.txt"
if sys.argv[1] == "race":
    src = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip() + "/src/"
    out = root + "/build/race-src/"
    for name, subs in {
        "sync/pool.go": [("if runtime_randn(4) == 0 {", "if false {")],
        "fmt/print.go": [("p := ppFree.Get().(*pp)", "p := new(pp)"), ("\tppFree.Put(p)\n", "")],
    }.items():
        text = open(src + name).read()
        if not all(text.count(a) == 1 for a, _ in subs):
            print("not as expected, left alone: " + name, file=sys.stderr)
            continue
        for a, b in subs:
            text = text.replace(a, b)
        os.makedirs(os.path.dirname(out + name), exist_ok=True)
        if not os.path.exists(out + name) or open(out + name).read() != text:
            open(out + name, "w").write(text)
        rep[src + name] = out + name
json.dump({"Replace": rep}, sys.stdout, indent=1)
