"""Runs the harnesses of a property, replays counterexamples on the real program, writes evidence."""
import collections, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
import vlib
from props import PROPS
from vlib import VERIF, log

def parse(path):
    H = collections.defaultdict(lambda: dict(stat=collections.Counter(), check={}, cover=collections.Counter(), vio=collections.Counter(), prof=collections.Counter(), fn=set(), error=[], sample=[], status=None))
    if not os.path.exists(path): return H
    for l in open(path, errors="replace"):
        a = l.rstrip("\n").split("\t", 2)
        if len(a) != 3: continue
        h, k, v = a
        d = H[h]
        if k == "stat":
            for kv in v.split():
                x, y = kv.split("=")
                d["stat"][x] = max(d["stat"][x], int(y)) if x == "terms" else d["stat"][x] + int(y)
        elif k == "check":
            x = v.split(" ", 4)
            c = d["check"].setdefault(x[4], [0, 0, 0, 0])
            for i in range(4): c[i] += int(x[i])
        elif k in ("cover", "vio", "prof"):
            n, x = v.split(" ", 1)
            d[k][x] += int(n)
        elif k == "fn": d["fn"].add(v)
        elif k in ("error", "sample"): d[k].append(v)
        elif k == "status": d["status"] = {x.split("=")[0]: int(x.split("=")[1]) for x in v.split()}
    return H

def known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return {}
    return {(h, f["label"]): f for f in json.load(open(p))["findings"] if f["property"] == prop and f["status"] == "known" for h in f["harness"].split()}

def replay(path, tries=1):
    exe, test, shim = vlib.native()
    out = ""
    for _ in range(tries):
        tmp = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            e = vlib.env(VERIF_REPLAY=path, VERIF_EXE=exe, VERIF_SHIM=shim, TMPDIR=tmp)
            try:
                p = subprocess.run([test, "verif_replay", "--nocapture", "--test-threads=1"], env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                out = p.stdout.decode("utf8", "replace")
                if p.returncode < 0: out += "\nREPLAY-KILLED %d" % p.returncode
            except subprocess.TimeoutExpired as x:
                out = (x.stdout or b"").decode("utf8", "replace") + "\nREPLAY-TIMEOUT"
        finally: shutil.rmtree(tmp, ignore_errors=True)
        if confirmed(path, out): return True, out
    return False, out

def confirmed(path, out):
    if "REPLAY-CONFIRMED" in out: return True
    label = [l for l in open(path) if l.startswith("label ")][0]
    # the process itself died: the replay ran the code in-process
    if ("stack overflow" in label) and ("REPLAY-KILLED" in out or "has overflowed its stack" in out): return True
    return False

class NativeBuild(threading.Thread):
    error = None
    def run(self):
        try: vlib.native()
        except Exception as e: self.error = e

def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1].split(",") if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    hs = list(cfg["quick"]) + (list(cfg.get("thorough", [])) if tier == "thorough" else [])
    if only: hs = only
    budget = cfg.get("budget", (420, 3000))[0 if tier == "quick" else 1]
    try:
        exe, irdir = vlib.ir()
    except vlib.BuildError as e:
        print("ERROR: %s" % e); return 2
    tb = time.time() - t0
    out = os.path.join(vlib.BUILD, "run-%s" % prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    t1 = time.time()
    kn = known(prop)
    open(os.path.join(out, "known"), "w").write("".join("%s\t%s\n" % k for k in kn))
    nb = NativeBuild()
    nb.start()
    p = subprocess.run([exe, "--out", out, "--known", os.path.join(out, "known"), "--harness", ",".join(hs), "--budget", str(budget), "--workers", str(os.cpu_count() or 8), irdir], stderr=subprocess.PIPE)
    te = time.time() - t1
    H = parse(os.path.join(out, "results.tsv"))
    problems, notes = [], []
    if p.returncode != 0: problems.append("the executor ended with %d: %s" % (p.returncode, p.stderr.decode()[-800:]))
    for h in hs:
        s = H[h]["status"]
        if s is None: problems.append("%s: no result" % h); continue
        if H[h]["error"] or s["errors"]: problems.append("%s: %d paths could not be executed: %s" % (h, s["errors"], "; ".join(H[h]["error"][:3])[:1500]))
        if s["stop"] == 1: notes.append("%s: not completed within %d s" % (h, budget))
        if H[h]["stat"]["unknown"] or H[h]["stat"]["qunknown"]: notes.append("%s: %d solver answers were inconclusive" % (h, H[h]["stat"]["unknown"]))
    # counterexamples, replayed on the real program
    nb.join()
    if nb.error: print("ERROR: %s" % nb.error); return 2
    seen, viols, findings, unconfirmed = {}, [], {}, []
    files = sorted(glob.glob(os.path.join(out, "*.replay")))
    for f in files:
        lab = [l for l in open(f).read().splitlines() if l.startswith("label ")][0][6:]
        har = [l for l in open(f).read().splitlines() if l.startswith("harness ")][0][8:]
        key = (har, lab)
        seen.setdefault(key, []).append(f)
    rdir = os.path.join(VERIF, "evidence", "replay")
    reported = 0
    deadline = time.time() + 60
    for (har, lab), fs in seen.items():
        if (har, lab) in kn:
            ok = False
            for f in fs[:3]:
                ok, o = replay(f, cfg.get("tries", 1))
                if ok: break
            findings[(har, lab)] = ok
            continue
        if reported >= 3: break
        ok = False
        # (what depends on the order of hash tables needs the right seed, which every process picks anew)
        for f, tries in [(f, 1) for f in fs[:3]] + [(f, 20) for f in fs[:3]]:
            if tries > 1 and time.time() > deadline: break
            try: ok, o = replay(f, tries)
            except vlib.BuildError as e: print("ERROR: %s" % e); return 2
            if ok:
                os.makedirs(rdir, exist_ok=True)
                dst = os.path.join(rdir, "%s-%s.replay" % (prop, os.path.basename(f)[:-7]))
                shutil.copy(f, dst)
                open(dst + ".log", "w").write(o)
                viols.append((har, lab, dst, o))
                reported += 1
                break
        if not ok: unconfirmed.append((har, lab, fs[0], o))
    # paths on which every assertion held, run on the real program with inputs the solver chose
    validated, disagree = 0, []
    per = 3 if tier == "quick" else 25
    for h in hs:
        for f in sorted(glob.glob(os.path.join(out, h + "-[0-9]*.sample")))[:per]:
            ok, o = replay(f)
            if "REPLAY-NOT-REPRODUCED" in o: validated += 1
            else: disagree.append((h, f, o))
    for i in sorted({f["id"] for f in kn.values()}):
        f = [f for f in kn.values() if f["id"] == i][0]
        if any((h, f["label"]) in findings for h in f["harness"].split()): print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        elif any(h in hs for h in f["harness"].split()): notes.append("known finding %s was not observed" % i)
    missing = []
    for c in cfg.get("covers", []):
        if not any(c in H[h]["cover"] for h in hs): missing.append(c)
    if missing and not only: notes.append("never reached: " + ", ".join(missing))
    tot = collections.Counter()
    fns = set(); checks = {}; covers = collections.Counter(); samples = []
    for h in hs:
        for k, v in H[h]["stat"].items(): tot[k] = max(tot[k], v) if k == "terms" else tot[k] + v
        fns |= H[h]["fn"]
        for l, c in H[h]["check"].items():
            x = checks.setdefault(l, [0, 0, 0, 0])
            for i in range(4): x[i] += c[i]
        covers.update(H[h]["cover"])
        samples += ["%s: %s" % (h, s.strip()) for s in H[h]["sample"][:2]]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viols),
        coverage=dict(
            states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated + len(viols) + sum(findings.values()), samples=samples[:12] or ["(none)"],
            exhaustive=not problems and not [n for n in notes if "not completed" in n or "inconclusive" in n],
            explanation="states = program paths explored to the end (each stands for all inputs satisfying its path condition); transitions = case splits both of whose outcomes are feasible; traces_validated = inputs the solver chose for explored paths, run on the natively built program with the same outcome of every assertion",
            harnesses={h: dict(paths=H[h]["stat"]["paths"], status=H[h]["status"]) for h in hs},
            instructions=tot["insns"], queries=dict(total=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["qunknown"], cache_hits=tot["hits"]), solver_seconds=round(tot["solver_us"] / 1e6, 2),
            assertions={l: dict(decided_by_path_condition=c[0], solver_unsat=c[1], violated=c[2], inconclusive=c[3]) for l, c in sorted(checks.items())},
            covered=dict(covers), functions_encoded=sorted(fns)[:400], function_count=len(fns), symbolic_digest_calls=tot["sha"],
            bounds=cfg.get("bounds", ""), outside_bounds=cfg.get("outside", ""), build_seconds=round(tb, 1), engine_seconds=round(te, 1), notes=notes + problems),
        assumptions=["LLVM IR that rustc generates for riscv64 at opt-level 2 with overflow checks behaves as the x86-64 build (counterexamples are replayed on the latter)",
            "the executor's models of the allocator, C library and file system", "SHA-1 is modelled as an injective function with generic outputs on symbolic input",
            "hash tables: SipHash is replaced by a harness-chosen constant; word-at-a-time text scans of std and memchr are replaced by their byte-wise forms"] + cfg.get("assumptions", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for n in notes: print("note: " + n)
    print("%s %s: %d paths, %d splits, %d solver queries (%.1f s), %d assertions, build %.1f s, execution %.1f s" % (prop, tier, tot["paths"], tot["forks"], tot["queries"], tot["solver_us"] / 1e6, sum(sum(c) for c in checks.values()), tb, te))
    if viols:
        for har, lab, dst, o in viols:
            print("violated: %s (%s)" % (lab, har))
            for l in open(dst).read().splitlines():
                if l.startswith("#"): print("   " + l)
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    for har, lab, f, o in unconfirmed:
        print("UNCONFIRMED: %s (%s): the counterexample %s does not fail on the real program\n%s" % (lab, har, f, o[-1500:]))
    for h, f, o in disagree: print("UNCONFIRMED: %s: a path on which every assertion holds (%s) ends otherwise on the real program\n%s" % (h, f, o[-1500:]))
    for pr in problems: print("ERROR: " + pr)
    if unconfirmed or disagree or problems or not tot["paths"]: return 2
    if not sum(sum(c) for c in checks.values()): print("ERROR: nothing was asserted"); return 2
    return 0
