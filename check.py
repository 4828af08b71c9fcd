#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: compiles the harness crates against /repo's current tree to LLVM bitcode,
lets build/symx execute them symbolically, replays what it finds against the natively compiled
code, and writes evidence/<property>.json.

exit 0  held on everything explored (known findings are printed, not alarms)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no answer (build error, budget exhausted, counterexample that does not replay)
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SYMX = f"{VERIF}/build/symx"
sys.path.insert(0, VERIF)
from spec import PROPS, CRATES  # noqa: E402

T0 = time.time()
JOBS = os.cpu_count() or 4


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def die(msg):
    log("ERROR", msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(f"{VERIF}/target", exist_ok=True)
        self.path = f"{VERIF}/target/{name}.lock"

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        r = sh(["make", "-s", "-C", f"{VERIF}/engine", f"-j{JOBS}"])
        if r.returncode or not os.path.exists(SYMX):
            die("engine build failed\n" + r.stdout[-3000:])


def tree_hash(dirs):
    """content of every source the build can read: mtimes are not trusted"""
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".json")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    try:
                        h.update(hashlib.sha256(open(p, "rb").read()).digest())
                    except OSError:
                        pass
    return h.hexdigest()


def cargo(crate, kind):
    """kind: bc (bitcode), wrap (bitcode, release arithmetic), native (replay binary), nwrap"""
    c = CRATES[crate]
    tgt = f"{VERIF}/target/{crate}-{kind}"
    with Lock(f"{crate}-{kind}"):
        os.makedirs(tgt, exist_ok=True)
        stamp = tree_hash([f"{REPO}/{d}" for d in c["repo"]] + [f"{VERIF}/harness"] + [f"{VERIF}/check.py"])
        sf = f"{tgt}/.stamp"
        old = open(sf).read() if os.path.exists(sf) else ""
        if old == stamp:
            # the sources are byte for byte those of the last build
            fs = sorted(glob.glob(f"{tgt}/release/deps/h_{crate}-*.bc"), key=os.path.getmtime) if kind in ("bc", "wrap") else glob.glob(f"{tgt}/release/h_{crate}")
            if fs:
                return fs[-1], ""
        else:
            # local packages are rebuilt whatever the timestamps say
            for pat in ["h_*", "sym-*"] + [f"{p}-*" for p in c["pkgs"]]:
                for d in glob.glob(f"{tgt}/release/.fingerprint/{pat}"):
                    shutil.rmtree(d, ignore_errors=True)
            for f in glob.glob(f"{tgt}/release/deps/h_{crate}-*.bc"):
                os.unlink(f)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="1.70.0", CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        if kind in ("wrap", "nwrap"):
            env["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "false"
            env["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = "false"
        if kind in ("bc", "wrap"):
            cmd = ["cargo", "rustc", "--release", "--offline", "--", "--emit=llvm-bc", "-C", "linker=/bin/true"]
        else:
            env["CARGO_PROFILE_RELEASE_LTO"] = "off"
            env["CARGO_PROFILE_RELEASE_CODEGEN_UNITS"] = "16"
            cmd = ["cargo", "build", "--release", "--offline", "--features", "native"]
        if os.path.exists(sf):
            os.unlink(sf)
        r = sh(cmd, cwd=f"{VERIF}/harness/{crate}", env=env)
        if r.returncode:
            return None, r.stdout[-4000:]
        if kind in ("bc", "wrap"):
            fs = sorted(glob.glob(f"{tgt}/release/deps/h_{crate}-*.bc"), key=os.path.getmtime)
            if not fs:
                return None, "no bitcode produced\n" + r.stdout[-2000:]
            out = fs[-1]
        else:
            out = f"{tgt}/release/h_{crate}"
        open(sf, "w").write(stamp)
        return out, ""


def native_run(exe, harness, data, alloc, limit=120):
    d = f"{VERIF}/target/replay-tmp"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{os.getpid()}-{hashlib.sha256(harness.encode() + data).hexdigest()[:16]}"
    open(p, "wb").write(data)
    try:
        env = dict(os.environ, SYM_INPUT=p, SYM_ALLOC_LIMIT=str(alloc))
        try:
            r = subprocess.run([exe, harness], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
            return r.returncode, r.stdout.decode("utf8", "replace")[-1500:]
        except subprocess.TimeoutExpired:
            return 124, "native replay timed out"
    finally:
        os.unlink(p)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    hs = list(P["quick"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    known = json.load(open(f"{VERIF}/known_findings.json"))["findings"]
    outd = f"{VERIF}/evidence/raw/{prop}"
    shutil.rmtree(outd, ignore_errors=True)
    os.makedirs(outd, exist_ok=True)
    repd = f"{VERIF}/evidence/replays"
    os.makedirs(repd, exist_ok=True)

    crates = sorted({(h["crate"], h.get("variant", "bc")) for h in hs})
    with cf.ThreadPoolExecutor(len(crates) * 2 + 1) as ex:
        fe = ex.submit(build_engine)
        fb = {cv: ex.submit(cargo, *cv) for cv in crates}
        fn = {cv: ex.submit(cargo, cv[0], "native" if cv[1] == "bc" else "nwrap") for cv in crates}
        fe.result()
        bc, nat = {}, {}
        for cv, f in fb.items():
            bc[cv], err = f.result()
            if not bc[cv]:
                die(f"{cv}: harness does not build against the current tree\n{err}")
        for cv, f in fn.items():
            nat[cv], err = f.result()
            if not nat[cv]:
                die(f"{cv}: native replay binary does not build\n{err}")
    log(f"{prop} {tier}: built {', '.join(c + ':' + v for c, v in crates)}; {len(hs)} harnesses")

    def run(h):
        cv = (h["crate"], h.get("variant", "bc"))
        name = h["h"]
        out = f"{outd}/{h['crate']}.{name}.json"
        lim = h.get("timeout", 240 if tier == "quick" else 1500)
        if tier == "quick":
            # what is found by then is still replayed and reported within the time a check has
            lim = int(max(15, min(lim, (240 if found else 700) - (time.time() - T0))))
        cmd = [SYMX, bc[cv], "--harness", name, "--out", out, "--timeout", str(lim), "--alloc-limit", str(h.get("alloc", 1 << 20)),
               "--max-paths", str(h.get("paths", 400000 if tier == "quick" else 20000000)), "--max-insts", "400000000000",
               "--solver-ms", str(h.get("solver_ms", 60000 if tier == "quick" else 300000)), "--path-insts", str(h.get("path_insts", 20000000 if tier == "quick" else 200000000))]
        t = time.time()
        try:
            r = sh(cmd, timeout=lim + 120)
            rc, txt = r.returncode, r.stdout[-1500:]
        except subprocess.TimeoutExpired:
            rc, txt = 124, "engine timeout"
        try:
            j = json.load(open(out))
        except Exception:
            j = None
        if j and j["violations"]:
            found.append(h["h"])
        return h, rc, txt, j, time.time() - t

    found = []
    # longest first
    hs.sort(key=lambda h: -h.get("cost", 1))
    viol, bad, knownhits, covered = [], [], [], []
    tot = dict(paths=0, insts=0, forks=0, queries=0, solver=0.0, checks=0, checks_solved=0)
    funcs, samples, todo = set(), [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for h, rc, txt, j, dt in ex.map(run, hs):
            name = f"{h['crate']}:{h['h']}"
            if j is None:
                bad.append(f"{name}: engine failed rc={rc} {txt}")
                continue
            tot["paths"] += j["paths"]
            tot["insts"] += j["instructions"]
            tot["forks"] += j["forks"]
            tot["queries"] += j["queries"]
            tot["solver"] += j["solver_s"]
            tot["checks"] += sum(j["checks"].values())
            tot["checks_solved"] += sum(j["checks_symbolic"].values()) if isinstance(j["checks_symbolic"], dict) else j["checks_symbolic"]
            funcs.update(j["functions"])
            for v in j["violations"]:
                viol.append((h, v))
            if j["incomplete"]:
                bad.append(f"{name}: not explored completely: {j['incomplete'][:3]}")
            miss = [c for c in h.get("cover", [1]) if not j["covers"].get(str(c))]
            if miss and not j["violations"]:
                bad.append(f"{name}: cover points {miss} not reached, the check would be vacuous")
            covered.append(dict(harness=name, paths=j["paths"], queries=j["queries"], solver_s=j["solver_s"], wall_s=round(dt, 2), checks=sum(j["checks"].values())))
            for s in j["samples"][: 2 if tier == "quick" else 6]:
                todo.append((h, bytes.fromhex(s)))
            log(f"  {name}: {j['paths']} paths, {j['queries']} queries, {j['solver_s']:.2f}s solver, {len(j['violations'])} violations, {dt:.1f}s")

    # the engine against the implementation: inputs of completed paths, run natively
    def validate(x):
        h, data = x
        cv = (h["crate"], h.get("variant", "bc"))
        rc, out = native_run(nat[cv], h["h"], data, h.get("alloc", 1 << 20))
        return h, data, rc, out

    validated, mism = 0, []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for h, data, rc, out in ex.map(validate, todo):
            if rc == 0:
                validated += 1
                if len(samples) < 12:
                    samples.append(dict(harness=h["h"], input=data.hex()[:200], native="ok"))
            else:
                mism.append(f"{h['h']} input={data.hex()} native rc={rc} {out[-200:]}")
    if mism:
        bad.append("engine and native code disagree: " + "; ".join(mism[:3]))

    new, hangs, skipped = [], 0, 0
    seen = set()
    for h, v in viol:
        cv = (h["crate"], h.get("variant", "bc"))
        data = bytes.fromhex(v["input"])
        k = next((f for f in known if f["property"] == prop and f["harness"] == h["h"] and f["kind"] == v["kind"]
                  and (f.get("match", "") in v["msg"])), None)
        if k:
            key = (k["harness"], k["kind"], k.get("match", ""))
            if key not in seen:
                seen.add(key)
                knownhits.append(k)
                print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
            continue
        if new and (hangs >= 3 and v["kind"] == "hang" or tier == "quick" and time.time() - T0 > 600):
            skipped += 1
            continue
        hangs += v["kind"] == "hang"
        rc, out = native_run(nat[cv], h["h"], data, h.get("alloc", 1 << 20), 60)
        path = f"{repd}/{prop}-{h['crate']}-{h['h']}-{re.sub('[^A-Za-z0-9]+', '_', v['key'])[:60]}.json"
        rec = dict(property=prop, harness=h["h"], crate=h["crate"], kind=v["kind"], message=v["msg"], location=v.get("loc", ""), input_hex=v["input"],
                   native_rc=rc, native_output=out, trace=v.get("trace", [])[:40],
                   replay=f"printf '{v['input']}' | xxd -r -p > /tmp/in && SYM_INPUT=/tmp/in {nat[cv]} {h['h']}")
        json.dump(rec, open(path, "w"), indent=1)
        log(f"counterexample in {h['crate']}:{h['h']}: {v['kind']} {v['msg']} input={v['input'][:120]} native rc={rc}")
        if v["kind"] == "hang" and rc != 124:
            # long, but it ends (or fails for another reason, which the engine then reports itself)
            bad.append(f"{h['h']}: a path exceeds the instruction budget: {v['msg']}")
        elif rc in (0, 77):
            bad.append(f"{h['h']}: counterexample does not replay natively (rc={rc}): {v['kind']} {v['msg']}")
        else:
            new.append(path)

    if skipped:
        log(f"{skipped} further counterexamples not replayed")
    mine = sorted(f for f in funcs if re.search(r"bin_prot|versioned|mina|merkle|consensus|h_\w+::|refm", f))
    repo_fns = sorted(f for f in funcs if any(x in f for x in P.get("fns", ["bin_prot"])))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["insts"], traces_validated_against_impl=validated, samples=samples,
                            exhaustive=not bad, engine="symx: symbolic execution of LLVM bitcode, z3 QF_BV",
                            path_forks=tot["forks"], queries_discharged=tot["queries"], solver_s=round(tot["solver"], 3),
                            assertions_reached=tot["checks"], assertions_decided_by_solver=tot["checks_solved"],
                            bounds=P["bounds"], outside_bounds=P.get("outside", ""), harnesses=covered,
                            functions_encoded=len(funcs), functions_of_the_repository=repo_fns[:400], functions_of_crates=len(mine),
                            known_findings=[k["what"] for k in knownhits], problems=bad),
              assumptions=P.get("assumptions", []) + COMMON, wall_s=round(time.time() - T0, 2), violations=len(new))
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop}: {tot['paths']} paths, {tot['insts']} instructions, {tot['queries']} queries, {tot['solver']:.1f}s solver, {validated} paths replayed natively, {len(new)} violations, {len(bad)} problems")
    for p in new:
        print(f"VIOLATION property={prop} replay={p}", flush=True)
    if new:
        sys.exit(1)
    if bad:
        for b in bad[:10]:
            log("PROBLEM", b)
        sys.exit(2)


COMMON = [
    "rustc 1.70's LLVM bitcode (fat LTO, opt-level 1, overflow and debug assertions on) means what the source means",
    "symx implements that bitcode faithfully (inputs of completed paths are replayed natively on every run) and z3 is sound",
    "text formatting of error messages is not executed (core::fmt replaced by a writer that succeeds)",
]

if __name__ == "__main__":
    main()
