#!/usr/bin/env python3
"""Driver: encode the current /repo tree, run vsym per harness, replay every model natively,
write evidence.  Usage: check ID quick|thorough"""
import sys, os, json, subprocess, tempfile, shutil, time, glob, re, hashlib, threading, fcntl, select
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
CORES = 8
sys.path.insert(0, os.path.join(V, "lib"))
CFL = "-std=c99 -fPIC -D_XOPEN_SOURCE=500 -DLINUX_VERSION -w".split()
BCFL = CFL + "-g -O0 -Xclang -disable-O0-optnone -fno-builtin -ffp-contract=off -emit-llvm -c".split()
PARSERS = ["osc_parser", "osc_expr_parser", "osc_legacy_parser"]
SCANNERS = ["osc_scanner", "osc_expr_scanner", "osc_legacy_scanner"]

class BuildError(Exception): pass
def sh(cmd, cwd=None, check=True, timeout=300, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    if check and r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr.decode("latin1")[-3000:]))
    return r

def engine_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + "/engine/*.cpp") + glob.glob(V + "/engine/*.h")): h.update(open(f, "rb").read())
    return h.hexdigest()
def ensure_engine(scratch=None):
    b = V + "/engine/bin/vsym"; hf = V + "/engine/bin/vsym.src"
    want = engine_hash()
    def good(): return os.path.exists(b) and os.path.exists(hf) and open(hf).read().strip() == want and subprocess.run([b, "--version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    if good(): return b
    with open("/tmp/.vsym_build_lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if good(): return b
        out = b
        if not os.access(V + "/engine/bin", os.W_OK): out = scratch + "/vsym"
        sh(["bash", V + "/engine/build.sh", out], timeout=900)
        if out == b: open(hf, "w").write(want + "\n")
        return out

class Tree:
    """a mirror of /repo's working tree with generated parsers, compiled on demand"""
    def __init__(self, scratch):
        self.s = scratch; self.src = scratch + "/src"; os.makedirs(self.src + "/contrib", exist_ok=True)
        for f in os.listdir(REPO):
            if re.search(r"\.(c|h|y|l|r)$", f) and not re.match(r"osc_(expr_|legacy_)?(parser|scanner)\.[ch]$", f): shutil.copy(REPO + "/" + f, self.src)
        for f in glob.glob(REPO + "/contrib/*.[ch]"): shutil.copy(f, self.src + "/contrib")
        jobs = [["bison", "-p", p + "_", "-d", "-o", p + ".c", p + ".y"] for p in PARSERS] + [["flex", "-o", s + ".c", "--prefix=" + s + "_", "--header-file=" + s + ".h", s + ".l"] for s in SCANNERS]
        with ThreadPoolExecutor(CORES) as ex: list(ex.map(lambda c: sh(c, cwd=self.src), jobs))
        mk = open(REPO + "/Makefile", errors="replace").read()
        m = re.search(r"^LIBO_BASENAMES\s*=\s*((?:.*\\\n)*.*)$", mk, re.M)
        names = m.group(1).replace("\\\n", " ").split() if m else []
        names = [n for n in names if os.path.exists("%s/%s.c" % (self.src, n))]
        if len(names) < 10: raise BuildError("cannot find the list of library sources")
        self.names = names + PARSERS + SCANNERS
        self.lock = threading.Lock(); self.native = {}
    def bitcode(self):
        d = self.s + "/bc"; os.makedirs(d, exist_ok=True)
        def cc(n): sh(["clang"] + BCFL + ["-I.", n + ".c", "-o", d + "/" + n.replace("/", "_") + ".bc"], cwd=self.src)
        with ThreadPoolExecutor(CORES) as ex:
            l = [ex.submit(cc, n) for n in self.names] + [ex.submit(sh, ["clang"] + BCFL + [V + "/lib/vlibc.c", "-o", d + "/vlibc.bc"])]
            for x in l: x.result()
        sh(["llvm-link"] + ["%s/%s.bc" % (d, n.replace("/", "_")) for n in self.names] + ["-o", d + "/lib0.bc"])
        sh(["llvm-link", d + "/lib0.bc", "--override", d + "/vlibc.bc", "-o", d + "/lib1.bc"])
        sh(["opt", "-passes=function(sroa,simplifycfg)", d + "/lib1.bc", "-o", d + "/lib.bc"])
        return d + "/lib.bc"
    def nat(self, san):
        """native objects with a sanitizer; san in asan, asan0, msan"""
        with self.lock:
            if san not in self.native:
                self.native[san] = ThreadPoolExecutor(1).submit(self._nat, san)
        return self.native[san].result()
    FL = {"asan": ["-fsanitize=address,vla-bound", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
          "asan0": ["-fsanitize=address,vla-bound", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=zero"],
          "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all"]}
    def _nat(self, san):
        d = self.s + "/nat_" + san; os.makedirs(d, exist_ok=True)
        def cc(n, src=None): sh(["clang"] + CFL + ["-g", "-O0", "-I.", "-c"] + self.FL[san] + [src or n + ".c", "-o", d + "/" + n.replace("/", "_") + ".o"], cwd=self.src)
        with ThreadPoolExecutor(CORES) as ex:
            for x in [ex.submit(cc, n) for n in self.names] + [ex.submit(cc, "vhrt", V + "/lib/vhrt.c")]: x.result()
        return d, ["%s/%s.o" % (d, n.replace("/", "_")) for n in self.names] + [d + "/vhrt.o"]

SAN_RC = 99
def run_native(exe, inputs, scratch, fill=None, timeout=15):
    fd, inp = tempfile.mkstemp(dir=scratch); os.close(fd); rf = inp + ".reach"
    with open(inp, "w") as f:
        for w, v in inputs: f.write("%d %d\n" % (w, v))
    env = dict(os.environ, VH_INPUTS=inp, VH_REACH=rf, TZ="UTC", ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "",
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=%d:detect_stack_use_after_return=1:detect_odr_violation=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d:handle_abort=1:strict_memcmp=0:intercept_strlen=1" % (SAN_RC, 0xbe if fill is None else fill),
               MSAN_OPTIONS="exitcode=%d" % SAN_RC, UBSAN_OPTIONS="exitcode=%d" % SAN_RC)
    env["MSAN_SYMBOLIZER_PATH"] = env["ASAN_SYMBOLIZER_PATH"]
    try:
        r = subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=scratch)
        rc, err = r.returncode, r.stderr.decode("latin1")
    except subprocess.TimeoutExpired: rc, err = -1000, "timeout"
    reach = open(rf, errors="replace").read().split("\n")[:-1] if os.path.exists(rf) else []
    for p in (inp, rf):
        if os.path.exists(p): os.unlink(p)
    return rc, err, reach

class Job:
    def __init__(self, d, tier, idx):
        self.h = d["h"]; self.entry = d["entry"]; self.d = d; self.idx = idx; self.name = self.entry
        self.defs = dict(d.get("defs", {})); self.defs.update(d.get(tier, {}).get("defs", {}))
        self.time = d.get(tier, {}).get("time", d.get("time", 60 if tier == "quick" else 400))
        self.opts = d.get("opts", []) + d.get(tier, {}).get("opts", [])
        if self.defs: self.name += "[" + ",".join("%s=%s" % kv for kv in sorted(self.defs.items())) + "]"
        self.exe = {}; self.lock = threading.Lock(); self.res = None
    def cflags(self): return ["-DENTRY=" + self.entry] + ["-D%s=%s" % kv for kv in self.defs.items()] + ["-I" + V + "/lib", "-I" + V + "/harness"]
    def build_bc(self, t, lib):
        o = "%s/job%d" % (t.s, self.idx)
        sh(["clang"] + BCFL + ["-I."] + self.cflags() + [V + "/harness/" + self.h, "-o", o + ".0.bc"], cwd=t.src)
        sh(["opt", "-passes=function(sroa,simplifycfg)", o + ".0.bc", "-o", o + ".1.bc"])
        sh(["llvm-link", lib, "--override", o + ".1.bc", "-o", o + ".bc"]); self.bc = o + ".bc"
    def build_native(self, t, san):
        with self.lock:
            if san not in self.exe:
                d, objs = t.nat(san); e = "%s/job%d.%s" % (t.s, self.idx, san)
                sh(["clang"] + CFL + ["-g", "-O0", "-I."] + t.FL[san] + self.cflags() + [V + "/harness/" + self.h] + objs + ["-o", e, "-lm"], cwd=t.src)
                self.exe[san] = e
        return self.exe[san]
    def run(self, t, engine, fifo, deadline, tier, token_r):
        out = "%s/out%d" % (t.s, self.idx)
        os.read(token_r, 1)
        tl = min(self.time, deadline - time.time())
        if tl < 1: tl = 1
        p = subprocess.Popen([engine, self.bc, "--time", "%.1f" % tl, "--out", out, "--fifo", fifo, "--samples", "6", "--mem", "3300"] + self.opts, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try: _, err = p.communicate(timeout=tl + 60)
        except subprocess.TimeoutExpired:
            p.kill(); err = b"engine did not stop"
        self.res = merge(glob.glob(out + ".part.*"), err.decode("latin1")[-500:], p.returncode)
        return self

NUM = ["paths", "forks", "insts", "checks", "checks_proved", "checks_syntactic", "assume_cut", "left", "z3_queries", "z3_sat", "z3_unsat", "z3_unknown", "z3_time", "domain_decided", "model_decided", "cache_hits", "known_decided", "model_mismatch"]
def merge(files, err, rc):
    r = {k: 0 for k in NUM}; r.update(reach={}, incomplete={}, check_labels={}, functions={}, violations={}, samples=[], max_inputs=0)
    if rc != 0: r["incomplete"]["engine exit %s %s" % (rc, err)] = 1
    if not files: r["incomplete"]["no engine output"] = 1
    for f in files:
        if f.endswith(".tmp"): r["incomplete"]["engine part lost"] = 1; continue
        try: d = json.load(open(f))
        except Exception: r["incomplete"]["engine part unreadable"] = 1; continue
        if d.get("dead"): r["incomplete"]["engine process died"] = r["incomplete"].get("engine process died", 0) + 1; continue
        for k in NUM: r[k] += d[k]
        r["max_inputs"] = max(r["max_inputs"], d["max_inputs"])
        for k in ("reach", "incomplete", "check_labels"):
            for a, b in d[k].items(): r[k][a] = r[k].get(a, 0) + b
        for a, b in d["functions"].items():
            o = r["functions"].get(a); r["functions"][a] = [b[0], max(b[1], o[1]) if o else b[1], b[2]]
        for v in d["violations"]:
            k = "|".join((v["kind"], v["msg"], v["func"], v["loc"]))
            if k in r["violations"]: r["violations"][k]["count"] += v["count"]
            else: r["violations"][k] = v
        r["samples"] += d["samples"]
    return r

def confirm(job, t, v, scratch):
    """replay a model on the real code; returns (reproduced, how)"""
    variants = [("asan", None)]
    if v["kind"] == "uninit": variants = [("msan", None)]
    elif v["undef"] or v["kind"] in ("memory", "check"): variants += [("asan0", 0), ("asan", 0xff), ("asan", 1), ("msan", None)]
    else: variants += [("asan0", 0)]
    last = ""
    for san, fill in variants:
        try: exe = job.build_native(t, san)
        except BuildError as e: last = "build: " + str(e)[-300:]; continue
        rc, err, reach = run_native(exe, v["inputs"], scratch, fill)
        last = "%s fill=%s rc=%s %s" % (san, fill, rc, err[-1500:])
        if rc == 77: continue
        if rc == 78: continue
        if rc == -1000: return True, "%s: does not terminate within 15 s" % san, err
        if rc != 0:
            m = re.search(r"CHECK FAILED: .*", err) or re.search(r"SUMMARY: .*", err)
            return True, "%s fill=%s rc=%s %s" % (san, fill, rc, m.group(0) if m else err[-200:]), err
        if "VH_END" not in reach: return True, "%s: process exited inside the library" % san, err
    return False, last, ""

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    only = sys.argv[3:]  # optional entry filter (development)
    t0 = time.time()
    from checks import CHECKS
    ck = CHECKS[pid]; seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="vsym_%s_" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    try: rc = go(pid, tier, ck, seed, scratch, t0, only)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def go(pid, tier, ck, seed, scratch, t0, only):
    engine = ensure_engine(scratch)
    t = Tree(scratch); lib = t.bitcode()
    jobs = [Job(d, tier, i) for i, d in enumerate(ck["jobs"]) if (tier == "thorough" or not d.get("thorough_only")) and not (tier == "thorough" and d.get("quick_only"))]
    if only: jobs = [j for j in jobs if j.entry in only or j.name in only]
    natf = ThreadPoolExecutor(1).submit(t.nat, "asan")
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(lambda j: j.build_bc(t, lib), jobs))
    fifo = scratch + "/fifo"; os.mkfifo(fifo); fd = os.open(fifo, os.O_RDWR); os.write(fd, b"x" * CORES)
    budget = ck.get("budget", {}).get(tier, 150 if tier == "quick" else 780)
    deadline = t0 + budget
    with ThreadPoolExecutor(max(1, len(jobs))) as ex:
        list(ex.map(lambda j: j.run(t, engine, fifo, deadline, tier, fd), jobs))
    natf.result()
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(lambda j: j.build_native(t, "asan"), jobs))
    # replay sampled completed paths on the real code
    import random
    rnd = random.Random(seed); tasks = []
    for j in jobs:
        s = j.res["samples"]; rnd.shuffle(s); tasks += [(j, x) for x in s[:24 if tier == "quick" else 80]]
    def rs(a):
        j, x = a; rc, err, reach = run_native(j.exe["asan"], x["inputs"], scratch); return j, x, rc, err, reach
    with ThreadPoolExecutor(CORES) as ex: sres = list(ex.map(rs, tasks))
    validated = 0; mism = []; extra = []
    for j, x, rc, err, reach in sres:
        if rc == 0 and reach == x["reach"]: validated += 1
        elif rc == 0 or rc in (77, 78): mism.append({"job": j.name, "inputs": x["inputs"][:60], "rc": rc, "symbolic": x["reach"], "native": reach})
        else:
            m = re.search(r"CHECK FAILED: (.*)", err)
            extra.append((j, {"kind": "check" if m else "memory", "msg": m.group(1) if m else "native run of an explored path fails", "func": "?", "loc": "?", "stack": [], "inputs": x["inputs"], "reach": reach, "undef": True, "count": 1}))
    # confirm violations
    known = json.load(open(V + "/known_findings.json"))["findings"] if os.path.exists(V + "/known_findings.json") else []
    viol = []; spurious = []; knownhit = {}
    cand = [(j, v) for j in jobs for v in j.res["violations"].values()]
    have = set((j.name, v["msg"]) for j, v in cand); cand += [(j, v) for j, v in extra if (j.name, v["msg"]) not in have][:5]
    def cf(a): return a + confirm(a[0], t, a[1], scratch)
    with ThreadPoolExecutor(CORES) as ex: cres = list(ex.map(cf, cand[:60]))
    evd = V + "/evidence"; os.makedirs(evd, exist_ok=True); rep = evd + "/replay"; os.makedirs(rep, exist_ok=True)
    for f in glob.glob("%s/%s-*.json" % (rep, pid)): os.unlink(f)
    for j, v, ok, how, err in cres:
        e = {"property": pid, "harness": j.h, "entry": j.entry, "defs": j.defs, "kind": v["kind"], "what": v["msg"], "function": v["func"], "location": v["loc"], "stack": v["stack"], "inputs": v["inputs"], "reach": v["reach"], "paths_showing_it": v["count"], "replay_result": how, "native_output": err[-3000:]}
        if not ok: spurious.append(e); continue
        kf = next((k for k in known if k["status"] == "open" and k["property"] == pid and k["entry"] == j.entry and re.fullmatch(k["kind"], v["kind"]) and re.fullmatch(k["msg"], v["msg"]) and re.fullmatch(k.get("func", ".*"), v["func"])), None)
        if kf: knownhit[kf["id"]] = kf["what"]; continue
        viol.append(e)
    for k, w in sorted(knownhit.items()): print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, w))
    for i, e in enumerate(viol):
        p = "%s/%s-%d.json" % (rep, pid, i); json.dump(e, open(p, "w"), indent=1); e["replay"] = p
        if i < 10: print("VIOLATION property=%s replay=%s" % (pid, p)); print("  %s in %s (%s) [%s]: %s" % (e["kind"], e["function"], e["location"], j.name if False else e["entry"], e["what"])); print("  replay: " + e["replay_result"])
    tot = {k: sum(j.res[k] for j in jobs) for k in NUM}
    inc = {}; funcs = {}; jj = []
    for j in jobs:
        r = j.res
        for k, n in r["incomplete"].items(): inc.setdefault(j.name, {})[k] = n
        for f, (fl, a, b) in r["functions"].items():
            if fl and not fl.startswith(V) and "vlibc" not in fl: o = funcs.get(f, [fl, 0, b]); funcs[f] = [fl, max(o[1], a), b]
        want = j.d.get("reach", []); miss = [x for x in want if x not in r["reach"]]
        jj.append({"harness": j.h, "entry": j.name, "bound": j.d.get("bound", ""), "complete": not r["incomplete"] and not r["left"], "undecided": r["incomplete"], "paths": r["paths"], "insts": r["insts"], "checks": r["checks"], "z3_queries": r["z3_queries"], "z3_s": round(r["z3_time"], 2), "reach": r["reach"], "unreached": miss, "check_labels": r["check_labels"], "max_inputs": r["max_inputs"]})
    complete = [x["entry"] for x in jj if x["complete"]]
    smp = [{"entry": j.name, "inputs": x["inputs"][:40], "reach": x["reach"]} for j, x in tasks[:6]] or [{"note": "no completed path"}]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": ck.get("level", "model_checking"), "wall_s": round(time.time() - t0, 2),
          "coverage": {"states": tot["forks"] + len(jobs), "transitions": tot["insts"], "paths": tot["paths"], "traces_validated_against_impl": validated, "samples": smp,
             "harnesses": jj, "harnesses_complete_within_bounds": complete, "functions_encoded": {f: {"file": os.path.basename(x[0]), "blocks_executed": x[1], "blocks": x[2]} for f, x in sorted(funcs.items())},
             "queries": {"z3": tot["z3_queries"], "z3_sat": tot["z3_sat"], "z3_unsat": tot["z3_unsat"], "z3_unknown": tot["z3_unknown"], "z3_seconds": round(tot["z3_time"], 2), "decided_by_byte_domains": tot["domain_decided"], "decided_by_model_reuse": tot["model_decided"], "query_cache_hits": tot["cache_hits"]},
             "assertions": {"instances": tot["checks"], "unsat_by_solver": tot["checks_proved"], "unsat_by_simplification": tot["checks_syntactic"]},
             "samples_mismatched": mism[:5], "samples_mismatched_count": len(mism), "unconfirmed_models": [{k: e[k] for k in ("entry", "kind", "what", "function", "location", "replay_result")} for e in spurious][:10], "unconfirmed_models_count": len(spurious)},
          "assumptions": ck.get("assumptions", []) + ["allocations of at most 1 MB succeed", "x86-64 little-endian, clang -O0 semantics, Linux branch of the sources", "C library replaced by lib/vlibc.c during symbolic execution"],
          "violations": [{k: e[k] for k in ("kind", "what", "function", "location", "entry", "replay", "replay_result")} for e in viol]}
    ev["coverage"]["bounds"] = ck.get("bounds", "")
    json.dump(ev, open("%s/%s.json" % (evd, pid), "w"), indent=1)
    for x in jj:
        print("%-46s %s paths=%d checks=%d z3=%d/%.1fs%s%s" % (x["entry"], "complete" if x["complete"] else "PARTIAL", x["paths"], x["checks"], x["z3_queries"], x["z3_s"], " " + json.dumps(x["undecided"]) if x["undecided"] else "", " UNREACHED " + ",".join(x["unreached"]) if x["unreached"] else ""))
    print("replayed %d sampled paths on the real code, %d agree, %d disagree; %d unconfirmed models; %.1f s" % (len(tasks), validated, len(mism), len(spurious), time.time() - t0))
    for e in spurious[:8]: print("  unconfirmed: %s %s in %s %s [%s] %s" % (e["kind"], e["what"], e["function"], e["location"], e["entry"], e["replay_result"][:int(os.environ.get("VH_DBG","160"))]))
    for e in mism[:4] if os.environ.get("VH_DBG") else []: print("  mismatch", e)
    return 1 if viol else 0
if __name__ == "__main__":
    try: main()
    except BuildError as e: print("BUILD ERROR", e); os._exit(2)
