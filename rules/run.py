#!/usr/bin/env python3
"""run.py PROPERTY: decide one property from /repo's current source."""
import fcntl, glob, hashlib, importlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "rules"))
REPO = os.environ.get("SPACE_REPO", "/repo")
BUILD = os.path.join(V, ".build")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def src_files(repo):
    out = []
    for root, ds, fs in os.walk(repo):
        ds[:] = sorted(d for d in ds if d not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            p = os.path.join(root, f)
            if os.path.isfile(p) and not os.path.islink(p):
                out.append(p)
    return out


def ensure_driver():
    exe = os.path.join(BUILD, "driver", "release", "spacefacts")
    srcs = sorted(glob.glob(os.path.join(V, "driver", "src", "*.rs"))) + [os.path.join(V, "driver", "Cargo.toml")]
    tag = os.path.join(BUILD, "driver.hash")
    h = file_hash(srcs)
    if os.path.exists(exe) and os.path.exists(tag) and open(tag).read() == h:
        return h
    env = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin", CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")], cwd=os.path.join(V, "driver"), env=env)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("ERROR: the facts driver does not build")
        sys.exit(2)
    open(tag, "w").write(h)
    return h


def ensure_facts():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock" + hashlib.sha256(os.environ.get("SPACEFACTS_TARGET", "").encode()).hexdigest()[:8]), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dh = ensure_driver()
        sh_ = file_hash(src_files(REPO)) + dh[:8]
        d = os.path.join(BUILD, "facts-" + sh_)
        if not os.path.exists(os.path.join(d, "ok")):
            for old in sorted(glob.glob(os.path.join(BUILD, "facts-*")), key=os.path.getmtime)[:-12]:
                shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            r = sh(["bash", os.path.join(V, "facts.sh"), d, REPO])
            if r.returncode != 0:
                print(r.stdout[-6000:])
                print("ERROR: /repo does not type-check")
                sys.exit(2)
            open(os.path.join(d, "ok"), "w").write("ok")
        os.utime(d)
        return d


def known(pid):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key[len("key="):]] = what
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    d = ensure_facts()
    from core import Facts, AnchorMissing
    from lib import Rule
    F = Facts(d)
    F.repo = REPO
    R = Rule(F, pid)
    mod = importlib.import_module("p_" + pid)
    try:
        mod.check(F, R)
    except AnchorMissing as e:
        R.ob("anchor:main", False, "", "cannot be decided any more: %s" % e)
    kn = known(pid)
    bad = {}
    for key, ok, where, msg in R.obs:
        if not ok:
            bad.setdefault(key, (where, msg))
    new = {k: v for k, v in bad.items() if k not in kn}
    for k in kn:
        if k in bad:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    total = len(R.obs)
    good = sum(1 for o in R.obs if o[1])
    if total == 0:
        new["empty"] = ("", "the rule produced no obligations")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "RULE", mod.__doc__ or "").strip(),
            "obligations": total, "discharged": good,
            "functions_analysed": len(R.functions), "functions": sorted(R.functions)[:60],
            "counts": R.counts, "samples": R.samples,
            "bodies_in_scope": len(F.bodies), "exhaustive": True,
        },
        "assumptions": getattr(mod, "ASSUMES", ["rustc's type checking, name resolution and MIR construction are correct",
                                                 "only the workspace crates built by /opt/vp/build.sh are in scope"]),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d functions, counts %s, %.1fs" % (pid, total, good, len(R.functions), R.counts, time.time() - t0))
    if new:
        n = 0
        for k, (where, msg) in sorted(new.items(), key=str):
            rp = os.path.join(V, "evidence", "replay", "%s-%d.json" % (pid, n))
            n += 1
            json.dump({"property": pid, "key": k, "where": where, "message": msg, "rerun": "bash check.sh %s" % pid}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s: %s %s" % (k, where, msg))
        sys.exit(1)
    sys.exit(0)


main()
