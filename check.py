#!/usr/bin/env python3
"""Decides one property with Kani/CBMC over /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep DIR]

1. copies /repo/openraft into a scratch directory and substitutes, by name, the bounded stand-ins
   of /verif/kani/stubs for std collections, Vec, Arc and Box (see DESIGN.md);
2. compiles it with Kani together with the property's harnesses (/verif/kani/h/p/<id>*.rs);
3. lets CBMC decide every harness, all values within the harness' bounds at once;
4. replays a counterexample on the unmodified source with the repository's own toolchain;
5. writes /verif/evidence/<id>.json.
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PINNED = "nightly-2024-07-02"
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Err(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=None, out=None):
    """Runs a command in its own process group; returns (code, output)."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return -9, o


# ---- the scratch copy ------------------------------------------------------------------------

ENUM = re.compile(r"^((?:pub(?:\([a-z ]+\))? )?enum \w+(?:<[^{]*?>)?\s*(?:where[^{]*)?\{)(?!\s*\})", re.M)


def rewrite(rel, s):
    """The substitution of the stand-ins; purely by name, so it does not depend on how code is laid out."""
    s = re.sub(r"\bstd::collections\b", "vcoll", s)
    s = re.sub(r"(?<!::)(?<!`)\bVec\b(?=\s*(<|::))", "vcoll::Vec", s)
    s = re.sub(r"(?<!:)\bvec!", "vcoll::vec!", s)
    if not rel.endswith("core/tick.rs"):
        s = re.sub(r"\bstd::sync::Arc\b", "vcoll::Arc", s)
    s = re.sub(r"\bpub type SnapshotId = String;", "pub type SnapshotId = vcoll::Str;", s)
    s = re.sub(r"(?<!:)\bBox<(?!dyn\b|BoxAsync)", "vcoll::Box<", s)
    if not rel.endswith("network/backoff.rs") and rel != "raft/mod.rs":
        s = re.sub(r"(?<!:)\bBox::new\b", "vcoll::Box::new", s)
    # An explicit tag keeps the tag of an enum out of its payload union.
    s = ENUM.sub(r"#[repr(u8)]\n\1", s)
    if rel == "raft_types.rs":
        s = s.replace(".to_string()", ".to_string().into()")
    if rel == "lib.rs":
        s = "#![feature(specialization)]\n" + re.sub(r"^pub mod testing;", "", s, flags=re.M)
    return s


def prepare(w):
    src = os.path.join(w, "vsrc")
    shutil.copytree(os.path.join(REPO, "openraft", "src"), os.path.join(src, "openraft", "src"))
    for f in ("README.md",):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), src)
    for f in os.listdir(os.path.join(REPO, "openraft")):
        p = os.path.join(REPO, "openraft", f)
        if os.path.isfile(p):
            shutil.copy(p, os.path.join(src, "openraft"))
    root = os.path.join(src, "openraft", "src")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                s = open(p).read()
                t = rewrite(os.path.relpath(p, root), s)
                if t != s:
                    open(p, "w").write(t)
    # Kani package
    k = os.path.join(w, "kani")
    os.makedirs(os.path.join(k, ".cargo"))
    t = open(os.path.join(V, "kani", "Cargo.toml.in")).read()
    t = t.replace("@REPO@", REPO).replace("@SRC@", src).replace("@STUBS@", os.path.join(V, "kani", "stubs"))
    open(os.path.join(k, "Cargo.toml"), "w").write(t)
    shutil.copy(os.path.join(REPO, "Cargo.lock") if os.path.exists(os.path.join(REPO, "Cargo.lock"))
                else os.path.join(V, "kani", "Cargo.lock"), os.path.join(k, "Cargo.lock"))
    vendor(w, k)
    return k


def vendor(w, pkg):
    """Vendors the package's dependencies: Kani's toolchain has no registry of its own."""
    d = os.path.join(w, "vendor-" + os.path.basename(pkg))
    env = {"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": PINNED}
    c, o = sh(["cargo", "vendor", "--offline", d], cwd=pkg, env=env, timeout=120)
    if c != 0:
        raise Err("cargo vendor failed:\n" + o[-2000:])
    os.makedirs(os.path.join(pkg, ".cargo"), exist_ok=True)
    open(os.path.join(pkg, ".cargo", "config.toml"), "w").write(
        '[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n[net]\noffline = true\n' % d)


# ---- harnesses -------------------------------------------------------------------------------

HARN = re.compile(r"harness!\s*[\{\(]\s*((?:///[^\n]*\n\s*)*)(quick|thorough)\s+(\d+)\s+(\w+)\s*\[", re.S)


class Group:
    """The harnesses of one source file, which share a build configuration."""

    def __init__(self, prop, path, tier):
        s = open(path).read()
        self.prop, self.path = prop, path
        self.mod = os.path.splitext(os.path.basename(path))[0]
        self.features = []
        self.bounds = []
        self.assumes = []
        self.cap = {}
        for l in s.splitlines():
            m = re.match(r"//! (features|bounds|assumes|cap|thorough-cap): (.*)", l)
            if not m:
                continue
            if m.group(1) == "features":
                self.features = m.group(2).split()
            elif m.group(1) == "cap":
                self.cap.update(x.split("=") for x in m.group(2).split())
            elif m.group(1) == "thorough-cap":
                if tier == "thorough":
                    self.cap.update(x.split("=") for x in m.group(2).split())
            else:
                getattr(self, m.group(1)).append(m.group(2))
        self.h = []
        for m in HARN.finditer(s):
            doc = " ".join(x.strip()[3:].strip() for x in m.group(1).strip().splitlines())
            self.h.append(dict(name=m.group(4), tier=m.group(2), unwind=int(m.group(3)), doc=doc, mod=self.mod))


def groups(prop, tier):
    g = [Group(prop, p, tier) for p in sorted(glob.glob(os.path.join(V, "kani", "h", "p", prop.lower() + "*.rs")))]
    for x in g:
        if tier == "quick":
            x.h = [h for h in x.h if h["tier"] == "quick"]
    g = [x for x in g if x.h]
    if not g:
        raise Err("no harness for " + prop)
    return g


COMMON = ["nd", "vrt", "gen", "rec", "stubs", "scen", "quorum", "memb"]


def top(w, gs, native):
    """The harness root module, and natively the dispatcher."""
    s = ""
    for m in COMMON:
        s += '%s#[path = "%s/kani/h/%s.rs"]\npub mod %s;\n' % ("#[macro_use]\n" if m in ("nd", "vrt") else "", V, m, m)
    for g in gs:
        s += '#[path = "%s"]\npub mod %s;\n' % (g.path, g.mod)
    if native:
        s += "pub fn run(n: &str) {\n    match n {\n"
        for g in gs:
            for h in g.h:
                s += '        "%s::%s" => %s::%s(),\n' % (g.mod, h["name"], g.mod, h["name"])
        s += '        _ => panic!("no such harness"),\n    }\n}\n'
    p = os.path.join(w, "native.rs" if native else "top_%s.rs" % "_".join(g.mod for g in gs))
    open(p, "w").write(s)
    return p


def caps(g):
    return {"VCOLL_" + k.upper(): v for k, v in g.cap.items()}


def kani_env(w, topfile, tgt, g):
    flags = "--cap-lints allow --cfg openraft_verif -Zmir-opt-level=3 -Zinline-mir=yes -Zmir-enable-passes=-GVN"
    e = {"OPENRAFT_VERIF_HARNESS": topfile, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": flags, "CARGO_TARGET_DIR": tgt,
         "VCOLL_VCAP": "4", "VCOLL_CAP": "4"}
    e.update(caps(g))
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


KANI = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks",
        "--no-assertion-reach-checks"]


def full(g, h):
    return "verif::%s::%s" % (g.mod, h["name"])


KBIN = os.path.expanduser("~/.kani/kani-0.68.0/bin/")
CBMC_FLAGS = ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --no-bounds-check --no-pointer-check "
              "--nan-check --no-self-loops-to-assumptions --no-pointer-primitive-check --object-bits 16 --slice-formula").split()


def tool(n):
    return KBIN + n if os.path.exists(KBIN + n) else n


def compile_group(w, k, g):
    """Compiles the harnesses of a group with Kani; returns {harness: goto program}."""
    kd = os.path.join(w, "kani-" + g.mod)
    shutil.copytree(k, kd)
    tgt = os.path.join(os.environ.get("VERIF_TGT") or w, "target-" + "-".join(["k"] + g.features + [x + y for x, y in sorted(g.cap.items())]))
    env = kani_env(w, top(w, [g], False), tgt, g)
    cmd = KANI + ["--only-codegen", "--exact"] + (["--features", ",".join(g.features)] if g.features else [])
    for h in g.h:
        cmd += ["--harness", full(g, h)]
    c, o = sh(cmd, cwd=kd, env=env, timeout=700)
    os.environ.get("VERIF_DEBUG") and open("/tmp/last_kani_%s.txt" % g.mod, "w").write(o)
    if c != 0:
        raise Err("the harnesses of %s did not compile:\n%s" % (g.mod, "\n".join(
            x for x in o.split("\n\n") if re.search(r"^error", x, re.M))[-4000:]))
    metas = sorted(glob.glob(os.path.join(tgt, "**", "*.kani-metadata.json"), recursive=True), key=os.path.getmtime)
    found = {}
    for m in metas:
        d = json.load(open(m))
        for x in d.get("proof_harnesses", []):
            if os.path.exists(x["goto_file"]):
                found[x["pretty_name"]] = x
    out = {}
    for h in g.h:
        x = found.get(full(g, h))
        if not x:
            raise Err("no goto program for %s\n%s" % (full(g, h), o[-2000:]))
        out[h["name"]] = x
    return out


def link(w, g, h, meta):
    f = os.path.join(w, "%s-%s.goto" % (g.mod, h["name"]))
    lib = os.path.join(KBIN, "..", "library", "kani", "kani_lib.c")
    steps = [["goto-cc", meta["goto_file"], lib, "-o", f],
             ["goto-cc", f, "--function", meta["mangled_name"], "-o", f],
             ["goto-instrument", "--add-library", "--no-malloc-may-fail", f, f],
             ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false", "--generate-function-body", ".*",
              "--drop-unused-functions", f, f],
             ["goto-instrument", "--ensure-one-backedge-per-target", f, f]]
    for s in steps:
        c, o = sh([tool(s[0])] + s[1:], timeout=120)
        if c != 0:
            raise Err("%s failed: %s" % (s[0], o[-500:]))
    pn = json.load(open(meta["goto_file"].replace(".symtab.out", ".pretty_name_map.json")))
    c, o = sh([tool("cbmc"), "--list-goto-functions", f], timeout=60)
    funcs = set()
    for l in o.splitlines():
        l = l.strip()
        if l and "body not available" not in l:
            n = pn.get(l.split(" ")[0]) or ""
            n = n if isinstance(n, str) else ""
            funcs.add(n)
    return f, funcs


CRATES = ("std::", "core::", "alloc::", "vcoll::", "kani::", "verif::", "tracing::", "rand", "futures", "chrono", "clap", "hashbrown", "maplit")


def own(n):
    """Is this pretty name a function of the code under test?"""
    m = re.match(r"<?(?:&?(?:mut )?)*([\w:]+)", n)
    return bool(m) and "::" in m.group(1) and not n.startswith("__") and not m.group(1).startswith(CRATES)


def cbmc(f, h, extra, timeout):
    """Runs CBMC; returns (messages, results, error)."""
    cmd = [tool("cbmc")] + CBMC_FLAGS + ["--unwind", str(h["unwind"]), "--sat-solver", h.get("solver", "cadical")] + extra + [f, "--verbosity", "9", "--json-ui"]
    c, o = sh(cmd, timeout=max(20, timeout))
    if c == -9:
        return "", None, "time-out"
    try:
        d = json.loads(o)
    except ValueError:
        return "", None, "no answer (exit %d): %s" % (c, o[-200:])
    msgs = "\n".join(x.get("messageText", "") for x in d if "messageText" in x)
    rs = None
    for x in d:
        if "result" in x:
            rs = x["result"]
    return msgs, rs, None if rs is not None else "no result: " + msgs[-300:]


def kind(prop):
    m = re.search(r"\.([\w-]+)\.\d+$", prop)
    return m.group(1) if m else ""


def decide(w, g, h, meta, timeout):
    t = time.time()
    r = dict(checks=0, failed=[], covers=[], funcs=set(), undetermined=[], unwind=[], ok=False, done=False, solver_s=0, symex_s=0,
             solver_calls=0, steps=0, vars=0, clauses=0)
    try:
        f, funcs = link(w, g, h, meta)
    except Err as e:
        r["error"] = str(e)
        return r
    r["file"] = f
    if os.environ.get("VERIF_STOP") == "link":
        r["error"] = "stopped"
        return r
    r["funcs"] = set(x for x in funcs if own(x))
    msgs, rs, err = cbmc(f, h, [], timeout - (time.time() - t))
    if err:
        r["error"] = err
        return r
    r["done"] = True
    for x in rs:
        n, st, d = x["property"], x["status"], x.get("description", "")
        k = kind(n)
        loc = x.get("sourceLocation", {})
        loc = "%s:%s" % (loc.get("file", "?"), loc.get("line", "?"))
        if k == "cover":
            r["covers"].append((d, st == "FAILURE", n))
            continue
        if k in ("unreachable", "reachability_check", "code_coverage"):
            continue
        r["checks"] += 1
        if st == "SUCCESS":
            continue
        if st != "FAILURE":
            r["undetermined"].append((n, d, st))
        elif k == "unwind" or "unwinding assertion" in d:
            r["unwind"].append((n, d, loc))
        elif k in ("unsupported_construct", "unsupported_struct") or "no-body" in n or "capacity exceeded" in d:
            r["undetermined"].append((n, d, loc))
        else:
            r["failed"].append((n, d, loc))
    r["solver_s"] = sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.e+-]+)s", msgs))
    r["symex_s"] = sum(float(x) for x in re.findall(r"Runtime Symex: ([\d.e+-]+)s", msgs))
    r["solver_calls"] = len(re.findall(r"Runtime Solver:", msgs))
    m = re.search(r"size of program expression: (\d+) steps", msgs)
    r["steps"] = int(m.group(1)) if m else 0
    m = re.search(r"(\d+) variables, (\d+) clauses", msgs)
    r["vars"], r["clauses"] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    r["ok"] = not r["failed"] and not r["undetermined"] and not r["unwind"]
    return r


def run_group(w, k, g, budget, pool):
    metas = compile_group(w, k, g)
    log("%s: compiled" % g.mod)
    fs = {h["name"]: pool.submit(decide, w, g, h, metas[h["name"]], budget) for h in g.h}
    return {n: f.result() for n, f in fs.items()}


# ---- counterexamples -------------------------------------------------------------------------

def values(trace):
    """The values of the nondeterministic inputs along a trace, in order, as hex."""
    out = []
    for s in trace:
        if s.get("stepType") != "assignment" or not s.get("lhs", "").startswith("goto_symex$$return_value"):
            continue
        fn = s.get("sourceLocation", {}).get("function", "")
        if "any_raw" not in fn:
            continue
        v = s["value"]
        if "binary" not in v:
            continue
        b = v["binary"]
        n = (len(b) + 7) // 8
        out.append(int(b, 2).to_bytes(n, "little").hex())
    return out


def playback(h, r, prop, timeout):
    """Concrete inputs under which one check fails (or one cover is reached)."""
    msgs, rs, err = cbmc(r["file"], h, ["--trace", "--property", prop], timeout)
    if err:
        return None, err
    for x in rs:
        if x["property"] == prop and x["status"] == "FAILURE":
            return values(x.get("trace", [])), None
    return None, "not reproduced by the solver"


def native_build(w, gs):
    """Builds the replay program from the unmodified source with the repository's toolchain."""
    p = os.path.join(w, "replay")
    os.makedirs(p, exist_ok=True)
    t = open(os.path.join(V, "replay", "Cargo.toml.in")).read()
    t = t.replace("@REPO@", REPO).replace("@V@", V)
    open(os.path.join(p, "Cargo.toml"), "w").write(t)
    if os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), p)
    vendor(w, p)
    env = {"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": PINNED, "CARGO_TARGET_DIR": os.path.join(w, "target-native"),
           "RUSTFLAGS": "--cap-lints allow --cfg openraft_verif", "OPENRAFT_VERIF_HARNESS": top(w, gs, True)}
    env.update(caps(gs[0]))
    feats = sorted(set(f for g in gs for f in g.features))
    cmd = ["cargo", "build", "--offline"] + (["--features", ",".join(feats)] if feats else [])
    c, o = sh(cmd, cwd=p, env=env, timeout=600)
    if c != 0:
        raise Err("replay build failed:\n" + o[-4000:])
    return os.path.join(w, "target-native", "debug", "replay")


def native(binp, g, h, vals):
    c, o = sh([binp, "%s::%s" % (g.mod, h["name"]), ",".join(vals)], timeout=60, env={"RUST_BACKTRACE": "0"})
    return c, o


# ---- main ------------------------------------------------------------------------------------

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = 840 if tier == "quick" else int(os.environ.get("VERIF_LIMIT", "5400"))
    if "--replay" in args:
        sys.exit(replay(prop, json.load(open(args[args.index("--replay") + 1]))))
    keep = args[args.index("--keep") + 1] if "--keep" in args else None
    w = keep or tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
    if keep:
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
    try:
        code = check(prop, tier, seed, limit, w, only)
    except Err as e:
        log("ERROR", e)
        code = 2
    except subprocess.TimeoutExpired:
        log("ERROR time-out")
        code = 2
    finally:
        if not keep:
            shutil.rmtree(w, ignore_errors=True)
    sys.exit(code)


def replay(prop, d):
    """Runs one recorded counterexample against the current source."""
    w = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        gs = [g for g in groups(prop, d.get("tier", "thorough")) if g.mod == d["harness"].split("::")[0]]
        b = native_build(w, gs)
        c, o = sh([b, d["harness"], ",".join(d["values"])], timeout=60)
        print(o)
        return 1 if c else 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


def known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get("findings", []) if x["property"] == prop]


def check(prop, tier, seed, limit, w, only):
    gs = groups(prop, tier)
    if only:
        for g in gs:
            g.h = [h for h in g.h if h["name"] == only]
        gs = [g for g in gs if g.h]
    log("%s %s: %d harnesses in %d groups" % (prop, tier, sum(len(g.h) for g in gs), len(gs)))
    k = prepare(w)
    log("source prepared")
    res, bad = {}, []
    pool = concurrent.futures.ThreadPoolExecutor(8)

    def one(g):
        return g, run_group(w, k, g, max(60, limit - 200 - int(time.time() - T0)), pool)

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, g) for g in gs]):
            try:
                g, r = f.result()
            except Err as e:
                bad.append(str(e))
                continue
            for h in g.h:
                res[(g.mod, h["name"])] = r[h["name"]]
    failing = []
    for g in gs:
        for h in g.h:
            r = res.get((g.mod, h["name"]))
            if r is None:
                continue
            if not r["done"]:
                bad.append("%s: no verdict: %s" % (h["name"], r["error"]))
                continue
            unsat = [d for d, s, n in r["covers"] if not s]
            log("%-28s %s checks=%d covers=%d/%d steps=%d symex=%.1fs solver=%.1fs" % (
                h["name"], "ok" if r["ok"] else "FAILED", r["checks"], len(r["covers"]) - len(unsat), len(r["covers"]),
                r["steps"], r["symex_s"], r["solver_s"]))
            for f in (r["failed"] + r["unwind"] + r["undetermined"])[:20]:
                log("    not proved: %s [%s] %s" % (f[1], f[2], f[0][-60:]))
            if r["failed"]:
                failing.append((g, h, r))
            elif r["unwind"]:
                bad.append("%s: loop bound exceeded: %s" % (h["name"], r["unwind"][0][2]))
            elif not r["ok"]:
                bad.append("%s: not decided: %s" % (h["name"], r["undetermined"][:3]))
            elif not r["covers"]:
                bad.append("%s: has no reachability witness" % h["name"])
            elif unsat:
                bad.append("%s: witness unreachable: %s" % (h["name"], unsat))
    violation = None
    validated = 0
    nb = {}

    def gkey(g):
        return tuple(g.features + [a + b for a, b in sorted(g.cap.items())])

    def binp(g):
        key = gkey(g)
        if key not in nb:
            ww = os.path.join(w, "n-" + ("-".join(key) or "default"))
            os.makedirs(ww)
            log("building the replay from the unmodified source")
            nb[key] = native_build(ww, [x for x in gs if gkey(x) == key])
        return nb[key]

    failing.sort(key=lambda x: x[2]["symex_s"] + x[2]["solver_s"])
    for g, h, r in failing:
        for name, desc, loc in r["failed"][:4]:
            left = limit - (time.time() - T0)
            if left < 30:
                bad.append("no time left to replay " + h["name"])
                break
            vals, err = playback(h, r, name, left - 20)
            if vals is None:
                log("%s: no counterexample: %s" % (h["name"], err))
                continue
            c, out = native(binp(g), g, h, vals)
            if c not in (0, 42, 43) and "panicked" in out:
                os.makedirs(os.path.join(V, "replays"), exist_ok=True)
                violation = os.path.join(V, "replays", "%s-%s.json" % (prop, h["name"]))
                json.dump(dict(property=prop, harness="%s::%s" % (g.mod, h["name"]), check=desc, at=loc, values=vals,
                               features=g.features, tier=tier, native_output=out[-4000:],
                               how="check.py %s --replay <this file> runs the harness on these values against /repo" % prop),
                          open(violation, "w"), indent=1)
                log("reproduced on the real code:\n" + out[-1500:])
                break
            log("not reproduced (exit %d): %s at %s: %s" % (c, desc[:100], loc, out[-200:].strip()))
        if violation:
            break
        bad.append("%s: counterexample does not reproduce on the real code" % h["name"])
    if tier == "thorough" and not failing and not bad:
        jobs = [(g, h, res[(g.mod, h["name"])], c) for g in gs for h in g.h for c in res[(g.mod, h["name"])]["covers"]]

        def wit(j):
            g, h, r, (d, s, n) = j
            left = limit - (time.time() - T0)
            return j, (playback(h, r, n, left) if left > 100 else (None, "no time"))

        for (g, h, r, (d, s, n)), (vals, err) in pool.map(wit, jobs):
            if vals is None:
                log("witness '%s' of %s not replayed: %s" % (d, h["name"], err))
                continue
            c, out = native(binp(g), g, h, vals)
            if c != 0 or "REPLAY-PASSED" not in out or ("WITNESS: " + d) not in out:
                bad.append("%s: the witness '%s' behaves differently on the real code (exit %d): %s" % (h["name"], d, c, out[-300:]))
            else:
                validated += 1
        log("%d witness executions agree between the solver and the real code" % validated)
    write_evidence(prop, tier, seed, gs, res, violation, bad, validated)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation), flush=True)
        return 1
    if bad:
        for b in bad:
            log("ERROR", b)
        return 2
    for f in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), flush=True)
    log("held")
    return 0


def write_evidence(prop, tier, seed, gs, res, violation, bad, validated):
    funcs, hs = set(), []
    tot = dict(checks=0, solver=0.0, calls=0, symex=0.0, steps=0, wit=0)
    for g in gs:
        for h in g.h:
            r = res.get((g.mod, h["name"]))
            if not r:
                continue
            funcs |= r["funcs"]
            tot["checks"] += r["checks"]
            tot["solver"] += r["solver_s"]
            tot["calls"] += r["solver_calls"]
            tot["symex"] += r["symex_s"]
            tot["steps"] += r["steps"]
            tot["wit"] += sum(1 for _, s, _ in r["covers"] if s)
            hs.append(dict(harness="%s::%s" % (g.mod, h["name"]), what=h["doc"], unwind=h["unwind"], verdict="holds" if r["ok"] else "fails",
                           assertions=r["checks"], witnesses=[d for d, s, _ in r["covers"] if s],
                           symex_steps=r["steps"], sat_variables=r["vars"], sat_clauses=r["clauses"],
                           symex_s=round(r["symex_s"], 2), solver_s=round(r["solver_s"], 2)))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation="Bounded symbolic execution of the current source by Kani/CBMC: every assertion below was decided by the SAT "
                        "solver for all values within the bounds; a passing run includes the unwinding assertions of every loop.",
            functions_encoded=sorted(funcs), functions_encoded_count=len(funcs),
            bounds=[b for g in gs for b in g.bounds],
            assertions_decided=tot["checks"], reachability_witnesses_satisfied=tot["wit"], solver_calls=tot["calls"],
            solver_s=round(tot["solver"], 2), symbolic_execution_s=round(tot["symex"], 2), symex_steps=tot["steps"],
            witness_executions_replayed_on_real_code=validated, harnesses=hs,
            undecided=bad),
        assumptions=[a for g in gs for a in g.assumes] + [
            "std collections, Vec, Arc and Box are replaced by bounded stand-ins with the documented behaviour; logging and wall-clock formatting are empty",
            "Kani 0.68 and CBMC 6.11 are trusted; a counterexample counts only if it reproduces on the unmodified source"],
        wall_s=round(time.time() - T0, 1), violations=1 if violation else 0)
    d = os.path.join(V, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
