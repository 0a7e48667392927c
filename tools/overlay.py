#!/usr/bin/env python3
"""overlay.py OUTDIR RETRY_DIR [locks]: writes OUTDIR/overlay.json, the build-time replacements:
 - retry-go's waits are shortened (1/1500)
 - the pauses of the program itself are shortened by VERIF_SLEEP_DIV
 - the program's list of whitelisted builders gets VERIF_BUILDER, if set
 - with "locks": the mutexes of the oracle and api packages are replaced by monitored ones
Nothing in /repo is written."""
import json, os, re, sys

out, retry = sys.argv[1], sys.argv[2]
modes = sys.argv[3:]
rep = {}

def put(target, name, text):
    p = os.path.join(out, "ov-" + name)
    with open(p, "w") as f:
        f.write(text)
    rep[target] = p

if retry:
    f = os.path.join(retry, "retry.go")
    s = open(f).read()
    if "return time.After(d)\n" in s:
        put(f, "retry.go", s.replace("return time.After(d)\n", "return time.After(d / 1500)\n"))

TIME = '''package %s

import (
	"os"
	"strconv"
	"time"
)

func verifDiv(d time.Duration) time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_SLEEP_DIV"))
	if err != nil || n < 1 {
		n = 1
	}
	return d / time.Duration(n)
}
func verifSleep(d time.Duration)                            { time.Sleep(verifDiv(d)) }
func verifAfter(d time.Duration) <-chan time.Time           { return time.After(verifDiv(d)) }
func verifTick(d time.Duration) <-chan time.Time            { return time.Tick(verifDiv(d)) }
func verifNewTimer(d time.Duration) *time.Timer             { return time.NewTimer(verifDiv(d)) }
func verifNewTicker(d time.Duration) *time.Ticker           { return time.NewTicker(verifDiv(d)) }
func verifAfterFunc(d time.Duration, f func()) *time.Timer  { return time.AfterFunc(verifDiv(d), f) }
'''
for d, _, files in os.walk("/repo"):
    if "/." in d:
        continue
    pkg = "main" if d == "/repo" else None
    for n in files:
        f = os.path.join(d, n)
        if not n.endswith(".go") or n.endswith("_test.go"):
            continue
        s = open(f).read()
        t = re.sub(r"\btime\.(Sleep|After|Tick|NewTimer|NewTicker|AfterFunc)\(", r"verif\1(", s)
        if t != s:
            pkg = re.search(r"^package (\w+)", s, re.M).group(1)
            put(f, "pause" + d.replace("/", "_") + "_" + n, t + "\nvar _ = time.Now\n")
    if pkg:
        put(os.path.join(d, "zz_verif_time.go"), "pause" + d.replace("/", "_") + ".go", TIME % pkg)

# the program under test knows the builder whose key the checks have
put("/repo/oracle/zz_verif_builders.go", "oracle-builders.go", '''package oracle

import "os"

func init() {
	if a := os.Getenv("VERIF_BUILDER"); a != "" {
		for k := range WhitelistedBuilders {
			WhitelistedBuilders[k] = append(WhitelistedBuilders[k], a)
		}
	}
}
''')

if "locks" in modes:
    mon = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lockmon.go.txt")).read()
    put("/repo/verifmon/mon.go", "lockmon.go", mon)
    for d, _, files in os.walk("/repo"):
        if "/." in d or "contract" in d:
            continue
        pkg = None
        for n in files:
            f = os.path.join(d, n)
            if not n.endswith(".go") or n.endswith("_test.go"):
                continue
            s = open(rep.get(f, f)).read()
            t = re.sub(r"\bsync\.(RWMutex|Mutex)\b", r"verif\1", s)
            if t != s:
                pkg = re.search(r"^package (\w+)", s, re.M).group(1)
                put(f, d.replace("/", "_") + n, t + "\nvar _ sync.Locker\n")
        if pkg:
            put(os.path.join(d, "zz_verif_locks.go"), d.replace("/", "_") + "locks.go", """package %s

import "github.com/dappnode/mev-sp-oracle/verifmon"

type verifRWMutex = verifmon.RWMutex
type verifMutex = verifmon.Mutex
""" % pkg)

json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"))
