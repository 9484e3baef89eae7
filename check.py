#!/usr/bin/env python3
"""Decides one property: python3 check.py <ID>.   Replays one case: python3 check.py <ID> --replay FILE

Exit 0: held on everything explored.  1: a VIOLATION line was printed.  2: the check could not decide."""
import concurrent.futures as cf, json, mmap, os, re, shutil, signal, struct, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
import checks

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
STD = "algorithm cassert cmath functional iostream limits memory numeric optional sstream stdexcept string tuple vector unordered_map utility".split()
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def linkdir(build):
    """The library includes smart_dnn/debugging/...: links with lower-case directory names."""
    lc = os.path.join(build, "lc", "smart_dnn")
    os.makedirs(lc, exist_ok=True)
    for d in os.listdir(REPO + "/smart_dnn"):
        if os.path.isdir(f"{REPO}/smart_dnn/{d}") and d != d.lower() and not os.path.lexists(f"{lc}/{d.lower()}"):
            os.symlink(f"{REPO}/smart_dnn/{d}", f"{lc}/{d.lower()}")
    return os.path.dirname(lc)

def compile_part(part, build, lc):
    exe = os.path.join(build, part["name"])
    cmd = [part.get("cxx", "clang++"), "-std=c++17", part.get("opt", "-O1"), "-g1", "-w"]
    cmd += {"asan": SAN, "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"], "none": []}[part.get("san", "asan")]
    cmd += part.get("flags", [])
    for s in STD:
        cmd += ["-include", s]
    cmd += ["-I" + REPO, "-I" + lc, "-I" + HERE + "/harness"]
    objs = []
    for src, flags in part.get("objs", []):   # units compiled without the part's flags
        obj = os.path.join(build, part["name"] + "." + src + ".o"); objs.append(obj)
        base = [c for c in cmd if c not in part.get("flags", [])]
        r = subprocess.run(base + flags + ["-c", os.path.join(HERE, "harness", src), "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode: raise CheckError(f"harness {src} does not compile:\n" + "\n".join(r.stdout.splitlines()[:40]))
    def shared(so):   # the library in another build configuration: (name, source, compiler, flags)
        name, src, cxx, flags = so
        c = [cxx, "-w", "-g1", "-fPIC", "-shared", "-fvisibility=hidden", "-Wl,-Bsymbolic"] + flags + sum((["-include", s] for s in STD), []) + ["-I" + REPO, "-I" + lc, "-I" + HERE + "/harness", os.path.join(HERE, "harness", src), "-o", os.path.join(build, name + ".so")]
        return name, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    broken = []
    if part.get("sos"):
        with cf.ThreadPoolExecutor(8) as ex: built = list(ex.map(shared, part["sos"]))
        broken = [(n, r.stdout) for n, r in built if r.returncode]
        if any(n == part["sos"][0][0] for n, _ in broken): raise CheckError(f"harness {part['sos'][0][1]} does not compile:\n" + "\n".join(broken[0][1].splitlines()[:40]))
        part["env"] = dict(part.get("env", {}), SODIR=build, SOS=" ".join(s[0] for s in part["sos"] if s[0] not in [n for n, _ in broken]))
        part["broken"] = broken
    cmd += [os.path.join(HERE, "harness", s) for s in part["src"]] + objs + ["-o", exe, "-lpthread"] + part.get("libs", [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise CheckError(f"harness {part['name']} does not compile:\n" + "\n".join(r.stdout.splitlines()[:40]))
    return exe

NUM = r'0x[0-9a-f]+|[-+]?\b\d[\d.]*(?:e[-+]?\d+)?'
FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+?):(\d+)")

def frame_name(f):
    f = re.sub(r"\(anonymous namespace\)::", "", f)
    f = re.sub(r"\[abi:\w+\]", "", f)
    while True:  # drop template arguments and parameters
        g = re.sub(r"<[^<>]*>", "", f)
        if g == f: break
        f = g
    f = f.split("(")[0].strip()
    return f.split(" ")[-1]

def keys_from_stderr(text):
    """Stable keys (without addresses or line numbers) of the sanitizer reports in a process's stderr."""
    keys = []
    lines = text.splitlines()
    def top(i):
        for l in lines[i:i + 60]:
            m = FRAME.match(l)
            if m and "/smart_dnn/" in m.group(2):
                return frame_name(m.group(1))
        return "?"
    for i, l in enumerate(lines):
        m = re.search(r"ERROR: (\w+Sanitizer): (?:detected )?([\w -]+?)(?: on | \(|:|$)", l)
        if m:
            what = m.group(2).strip().replace(" ", "-")
            if "LeakSanitizer" in m.group(1): what = "memory-leak"
            keys.append((f"{m.group(1)}:{what}:{top(i)}", l)); continue
        m = re.search(r"/(smart_dnn/\S+?):\d+:\d+: runtime error: (.*)", l)
        if m:
            keys.append((f"UndefinedBehavior:{re.sub(NUM, 'N', m.group(2))[:60]}:{m.group(1)}", l)); continue
        if ": runtime error: " in l:
            keys.append((f"UndefinedBehavior:{re.sub(NUM, 'N', l.split('runtime error: ')[1])[:60]}:{top(i)}", l)); continue
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", l)
        if m:
            keys.append((f"ThreadSanitizer:{m.group(1).strip().replace(' ', '-')}:{top(i)}", l)); continue
        if "HARNESS-TERMINATE" in l:
            keys.append((f"terminate:{l.split('HARNESS-TERMINATE ')[1]}", l)); continue
        m = re.match(r"==\d+== (Invalid (?:read|write) of size \d+|Conditional jump or move depends on uninitialised value|Use of uninitialised value|Syscall param \S+ points to uninitialised|Invalid free|Mismatched free|Source and destination overlap|.*definitely lost in loss record)", l)
        if m:
            at = next((frame_name(f.group(1)) for f in (re.match(r"==\d+==    (?:at|by) 0x[0-9A-F]+: (.*) \(", x) for x in lines[i + 1:i + 16]) if f and "smart_dnn" in f.group(1)), "?")
            keys.append((f"valgrind:{re.sub(NUM, 'N', m.group(1)).replace(' ', '-')}:{at}", l)); continue
        m = re.search(r"Assertion [`'](.*)' failed", l)
        if m:
            keys.append((f"assertion:{m.group(1)[:80]}", l))
    return keys

def read_progress(path):
    try:
        with open(path, "rb") as f:
            return struct.unpack("<QQ", f.read(16))
    except Exception:
        return (0, 0)

def run_proc(cmd, env, err, prog, cap, stall, cwd):
    """Runs cmd. Returns (rc or 'stall' or 'cap')."""
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True, cwd=cwd)
        t0 = last_t = time.time(); last = None; res = None
        while True:
            try:
                res = p.wait(timeout=0.2 if time.time() - t0 < 5 else 1); break
            except subprocess.TimeoutExpired:
                pass
            now = time.time(); pr = read_progress(prog)
            if pr != last: last, last_t = pr, now
            if now - last_t > stall: res = "stall"
            elif now - t0 > cap: res = "cap"
            if res is not None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); break
        return res

def run_shard(exe, part, build, shard, cases, seed, only=None):
    """Runs the cases of one shard, restarting behind a case that kills the process."""
    base = os.path.join(build, f"{part['name']}.{shard}")
    out, prog = base + ".out", base + ".prog"
    for f in (out, prog):
        if os.path.exists(f): os.unlink(f)
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_init_order=0:max_allocation_size_mb=4096:quarantine_size_mb=64:malloc_context_size=12" % (1 if part.get("leaks") else 0),
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
        "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0",
        "LSAN_OPTIONS": "exitcode=79", "HOME": build, "LC_ALL": "C"})
    env.update(part.get("env", {}))
    viol, start, end, restarts, hang = [], 0, cases, 0, 0
    if only is not None: start, end = only, only + 1
    cap, stall = (float(part.get("cap", 240)), float(part.get("stall", 60))) if TIER == "quick" else (float(part.get("tcap", 3000)), float(part.get("tstall", 240)))
    t0 = time.time()
    scratch = base + ".scratch"
    os.makedirs(scratch, exist_ok=True)
    env["SCRATCH"] = scratch
    while start < end:
        cmd = part.get("wrap", []) + [exe, "--seed", str(seed), "--start", str(start), "--cases", str(end - start), "--out", out, "--progress", prog] + part.get("args", [])
        err = base + f".err{restarts}"
        left = cap - (time.time() - t0)
        if left < 5: raise CheckError(f"{part['name']}: time cap reached in shard {shard} at case {start} of {end}")
        res = run_proc(cmd, env, err, prog, left, stall, scratch)
        text = open(err, errors="replace").read()[:400000]
        pos = read_progress(prog)[0] - 1
        if res == "cap":
            raise CheckError(f"{part['name']}: time cap reached in shard {shard} at case {pos} of {end}")
        if res == "stall":
            # decide by running the case alone
            p2 = prog + "2"
            r2 = run_proc(part.get("wrap", []) + [exe, "--seed", str(seed), "--start", str(pos), "--cases", "1", "--out", os.devnull, "--progress", p2] + part.get("args", []), env, base + ".err.hang", p2, stall * 1.5, stall * 1.5, scratch)
            if r2 not in ("stall", "cap"):
                ks = keys_from_stderr(text)  # a race may have caused it: what the sanitizer reported before counts
                for k, l in dict(reversed(ks)).items():
                    viol.append({"violation": k, "case": pos, "seed": seed, "desc": "", "msg": l.strip()[:300], "part": part["name"], "stderr": text[:6000]})
                restarts += 1
                if restarts >= 4:
                    if ks: break
                    raise CheckError(f"{part['name']}: case {pos} stalled once but not when repeated")
                start = pos if not ks else pos + 1
                continue
            viol.append({"violation": "hang", "case": pos, "seed": seed, "desc": "", "msg": f"no progress for {stall} s, twice", "part": part["name"]})
            start = pos + 1; hang += 1
            if hang >= 2: break
            continue
        ks = keys_from_stderr(text)
        if ks:
            seen = set()
            m = re.search(r"HARNESS-DEATH signal=\d+ case=\d+ desc=(.*)", text)
            for k, l in ks:
                if k in seen: continue
                seen.add(k)
                viol.append({"violation": k, "case": pos, "seed": seed, "desc": m.group(1) if m else "", "msg": l.strip()[:300], "part": part["name"], "stderr": text[:6000]})
        if res == 0: break
        if not ks:
            if isinstance(res, int) and res < 0 and -res in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                viol.append({"violation": f"crash:signal{-res}", "case": pos, "seed": seed, "desc": "", "msg": text[-600:], "part": part["name"]})
            else:
                raise CheckError(f"{part['name']}: harness ended with {res} at case {pos}: {text[-1500:]}")
        if pos < start: raise CheckError(f"{part['name']}: died before its first case: {text[-1500:]}")
        if part.get("san") == "tsan" and res == 66: break   # reports at exit; all cases ran
        if res == 79: break                                # leak report at exit; all cases ran
        start = pos + 1
        restarts += 1
        if restarts >= 4: break
    summ = {"cases": 0, "evaluations": 0, "events": {}, "distinct": set(), "samples": []}
    done = False
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try: d = json.loads(line)
            except ValueError: continue
            if "violation" in d: d["part"] = part["name"]; viol.append(d)
            elif "sample" in d: summ["samples"].append(d["sample"])
            elif "summary" in d:
                done = True
                summ["cases"] += d["cases"]; summ["evaluations"] += d["evaluations"]
                for k, v in d["events"].items(): summ["events"][k] = summ["events"].get(k, 0) + v
                summ["distinct"].update((x, part["name"]) if part.get("sepdistinct") else x for x in d["distinct"])
    if not done and not viol: raise CheckError(f"{part['name']}: shard {shard} wrote no summary")
    shutil.rmtree(scratch, ignore_errors=True)
    return summ, viol

def known_findings(pid):
    ks = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: ks[m.group(2)] = m.group(3).strip()
    return ks

def main():
    pid = sys.argv[1]
    spec = checks.CHECKS[pid]
    build = os.path.join(HERE, "build", pid)
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    lc = linkdir(build)
    replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    for n, part in enumerate(spec["parts"]):
        part.setdefault("name", f"{pid}_{n}")
    parts = spec["parts"]
    if replay: parts = [p for p in parts if p["name"] == replay["part"]]
    violations, events, samples, distinct = [], {}, [], set()
    cases = evals = 0
    with cf.ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(lambda p: compile_part(p, build, lc), parts))
        t_compile = time.time() - T0
        jobs = []
        for part in parts:
            for n, text in part.get("broken", []):
                e = next((l for l in text.splitlines() if "error" in l), "")
                violations.append({"violation": "does-not-build:" + n, "case": 0, "seed": SEED, "desc": n, "msg": e, "part": part["name"], "stderr": text[:6000]})
        for part, exe in zip(parts, exes):
            if replay:
                jobs.append(ex.submit(run_shard, exe, part, build, 0, 0, replay["seed"], replay["case"])); continue
            total = part["cases"][0 if TIER == "quick" else 1]
            shards = part.get("shards", 8) if TIER == "quick" else part.get("tshards", part.get("shards", 8) * 2)
            for s in range(shards):
                per = -(-total // shards)
                jobs.append(ex.submit(run_shard, exe, part, build, s, per, (SEED * 1000003 + s * 7919 + 17) & 0xffffffffffff))
        for j in jobs:
            s, v = j.result()
            violations += v; cases += s["cases"]; evals += s["evaluations"]; samples += s["samples"]; distinct |= s["distinct"]
            for k, n in s["events"].items(): events[k] = events.get(k, 0) + n
    known = known_findings(pid)
    fresh, old = {}, {}
    for v in violations:
        (old if v["violation"] in known else fresh).setdefault(v["violation"], []).append(v)
    if replay:
        for v in violations: log(json.dumps(v, indent=1))
        log("replayed:", len(violations), "violations")
        return 1 if fresh else 0
    missing = [e for e in spec.get("require", []) if not events.get(e)]
    seen, picked = set(), []
    for s in samples:
        k = s.split(": ")[0]
        if k not in seen and len(picked) < 14: seen.add(k); picked.append(s)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": picked or ["(none)"],
                       "cases": cases, "observed_events": events},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": sum(len(v) for v in fresh.values())}
    ev["coverage"]["compile_s"] = round(t_compile, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, vs in old.items(): log(f"KNOWN-FINDING: property={pid} {k}: {known[k]}")
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for n, (k, vs) in enumerate(sorted(fresh.items(), key=lambda kv: kv[1][0].get("case", 0))[:5]):
            path = os.path.join(HERE, "replays", f"{pid}-{n}.json")
            v = dict(vs[0]); v["property"] = pid; v["replay_cmd"] = f"python3 {HERE}/check.py {pid} --replay {path}"
            with open(path, "w") as f: json.dump(v, f, indent=1)
            log(f"VIOLATION property={pid} replay={path}")
            log(f"  {k}: {v.get('msg', '')[:300]}  [{v.get('desc', '')[:200]}]")
        return 1
    if missing or not evals or not distinct:
        log(f"CHECK-ERROR {pid}: observed nothing of {missing or 'anything'}")
        return 2
    log(f"{pid} held: {cases} cases, {evals} oracle evaluations, {len(distinct)} distinct, {time.time() - T0:.1f} s (compile {t_compile:.1f} s)")
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        log("CHECK-ERROR", e); rc = 2
    shutil.rmtree(os.path.join(HERE, "build", sys.argv[1]), ignore_errors=True) if rc == 0 else None
    sys.exit(rc)
