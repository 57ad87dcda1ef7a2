#!/usr/bin/env python3
"""Make and confirm the planted bugs of /verif/seeded.

  mkseed.py make FILE.py [id ...]   plant the bugs that FILE.py lists, keep those that are confirmed
  mkseed.py run [id ...]            run the quick check of the property against each planted bug
"""
import json, os, subprocess, sys, shutil, importlib.util, tempfile, time
V = "/verif"; R = "/repo"; SC = "/tmp/seed/repo"

HEAD = r'''#!/bin/bash
# run in the repository, after its build; keeps everything in a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS=-Ctarget-cpu=x86-64 CARGO_PROFILE_DEV_DEBUG=0
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
'''
RUST = r'''mkdir -p "$t/demo/src"; cp "$here/demo.rs" "$t/demo/src/main.rs"; cp "$repo/Cargo.lock" "$t/demo/"
cat > "$t/demo/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
walky = { path = "$repo"FEAT }
[workspace]
[profile.dev]
opt-level = 1
X
cargo build -q --offline --manifest-path "$t/demo/Cargo.toml" --target-dir "$t/target" 2>"$t/log" || { cat "$t/log"; exit 3; }
demo="$t/target/debug/demo"
'''
MPI = r'''export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 TMPDIR="$t"
world() { p=$1; shift; timeout -k 5 60 mpirun --oversubscribe -np "$p" "$@"; }
'''

def sh(cmd, cwd=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors="replace", executable="/bin/bash")
    return p.returncode, p.stdout

ENV = ('export PATH=/root/.cargo/bin:$PATH; unset CARGO_TARGET_DIR; export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu '
       'CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTFLAGS=-Ctarget-cpu=x86-64 CARGO_TERM_COLOR=never; ')

def scratch():
    shutil.rmtree("/tmp/seed", ignore_errors=True)
    os.makedirs("/tmp/seed")
    sh(f"cp -a {R} {SC}")

def build():
    return sh(ENV + "cargo test --workspace --no-run --offline && cargo build --workspace --offline && "
              f"cargo check --workspace --all-features --all-targets --offline --target-dir {SC}/target/all-features && "
              f"cargo build --offline --manifest-path utils/gen_matrix_fast/Cargo.toml --target-dir {SC}/target/gen_matrix_fast", cwd=SC)

def tests():
    rc, out = sh(ENV + "cargo test --workspace --offline --no-fail-fast 2>&1", cwd=SC)
    bad = [l for l in out.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = json.dumps(base)
    return [b for b in bad if b.split()[1] in names] or ([] if rc == 0 or bad else [out[-500:]])

def make(fn, ids):
    spec = importlib.util.spec_from_file_location("bugs", fn); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    scratch()
    for b in m.BUGS:
        if ids and b["id"] not in ids: continue
        t0 = time.time()
        sh("git checkout -q -- .", cwd=SC)
        d = f"{V}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        rc, base = sh(f"git diff -U0 c7af5d7 HEAD", cwd=SC)
        mine = {l[1:].strip() for l in base.splitlines() if l.startswith("+") and not l.startswith("+++")}
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{SC}/{f}").read()
            if s.count(old) < 1: print(b["id"], "NO MATCH", f, repr(old)); ok = False; break
            if s.count(old) > 1 and not b.get("first"): print(b["id"], "AMBIGUOUS", f, s.count(old), repr(old)); ok = False; break
            open(f"{SC}/{f}", "w").write(s.replace(old, new, 1))
        if not ok: shutil.rmtree(d); continue
        rc, diff = sh("git diff", cwd=SC)
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() in mine and len(l.strip()) > 4:
                print(b["id"], "removes a line of ours:", l)
        open(d + "/patch.diff", "w").write(diff)
        kind = b.get("kind", "rust")
        s = HEAD
        if kind in ("rust", "mpi"):
            s += RUST.replace("FEAT }", (', features = ["mpi"] }\nmpi = { version = "0.6", features = ["user-operations", "derive"]' if kind == "mpi" else "") + " }")
            open(d + "/demo.rs", "w").write(b["rs"].lstrip())
        if kind in ("mpi", "mpicli"): s += MPI
        s += b.get("run", 'timeout 120 "$demo"\n')
        open(d + "/demo.sh", "w").write(s); os.chmod(d + "/demo.sh", 0o755)
        for fn2, c in b.get("files", {}).items(): open(f"{d}/{fn2}", "w").write(c)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = build()
        if rc: print(b["id"], "BUILD FAILS", out[-1500:]); shutil.rmtree(d); continue
        bad = tests()
        if bad: print(b["id"], "TESTS FAIL", bad[:4]); shutil.rmtree(d); continue
        t1 = time.time()
        rc1, out1 = sh(f"timeout 300 bash {d}/demo.sh", cwd=SC)
        t2 = time.time()
        sh("git checkout -q -- .", cwd=SC)
        rc, out = build()
        rc0, out0 = sh(f"timeout 300 bash {d}/demo.sh", cwd=SC)
        t3 = time.time()
        good = rc1 != 0 and rc1 != 3 and rc0 == 0
        print(b["id"], "KEPT" if good else "DEMO BAD", f"patched rc={rc1} ({t2-t1:.0f} s), clean rc={rc0} ({t3-t2:.0f} s)", flush=True)
        if not good:
            print("  patched:", out1[-700:], "\n  clean:", out0[-700:])
            shutil.rmtree(d)
    shutil.rmtree("/tmp/seed")

def run(ids, tier="quick"):
    rows = []
    man = json.load(open(f"{V}/MANIFEST.json"))
    for i in sorted(os.listdir(f"{V}/seeded")):
        if ids and i not in ids: continue
        meta = json.load(open(f"{V}/seeded/{i}/meta.json")); p = meta["property"]
        rc, out = sh(f"git apply {V}/seeded/{i}/patch.diff", cwd=R)
        if rc: print(i, "does not apply", out); continue
        try:
            t0 = time.time()
            rc, out = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 driver/check.py {p} {tier}", cwd=V)
            vl = [l for l in out.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
            print(i, p, "CAUGHT" if rc == 1 and any(f"property={p} " in l for l in vl) else f"MISSED rc={rc}", f"{time.time()-t0:.0f} s", vl[0][:150] if vl else "", flush=True)
            if rc not in (0, 1): print(out[-1500:])
        finally:
            sh("git checkout -q -- .", cwd=R)

if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "run": run(sys.argv[2:])
