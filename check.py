#!/usr/bin/env python3
"""Decides one property: weaves the contracts into the current source, runs the verifier, replays on the
real code. usage: check.py PROPERTY [--tier quick|thorough]   (see DESIGN.md)"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
MODULES = {"C": "circular_buffer", "I": "interval", "D": "disjoint_set", "K": "counter"}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="")
ENV.pop("CARGO_TARGET_DIR", None)

# a quick check is to answer within 900 s: what has not come to an end by then counts as undecided
DEADLINE = [None]
def left(): return 1e9 if DEADLINE[0] is None else DEADLINE[0] - time.time()

def run(cmd, timeout=600, **kw):
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=err, start_new_session=True, **kw)
        late = False
        try: p.wait(timeout=max(1, min(timeout, left())))
        except subprocess.TimeoutExpired:
            late = True
        except BaseException:
            late = True; raise
        finally:
            if late:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
        def text(f): f.seek(0); return f.read().decode(errors="replace")
        return subprocess.CompletedProcess(cmd, 124 if late else p.returncode, text(out), "timeout" if late else text(err))

class Lock:
    def __init__(self, name=""): self.name = name
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock" + self.name), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def cargo_env(target, toolchain="stable-x86_64-unknown-linux-gnu"):
    return dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, target), RUSTUP_TOOLCHAIN=toolchain)

def build_weave():
    with Lock():
        r = run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "tools/weave"), env=cargo_env("weave"))
    return os.path.join(BUILD, "weave/debug/weave"), (r.stderr if r.returncode else "")

def build_native(pid, profile="debug"):
    """the part of the replay crate that one property needs, built against the current source of /repo; debug: with overflow checks and debug assertions, release: without"""
    feature = pid if pid[0] == "C" else MODULES[pid[0]]
    target = "native/" + feature
    with Lock("%s-%s" % (feature, profile)):
        fp = os.path.join(BUILD, target, profile, ".fingerprint")
        if os.path.isdir(fp):     # cargo goes by mtime: make it look at the sources again
            for n in os.listdir(fp):
                if n.startswith("advanced_collections-"): shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        r = run(["cargo", "build", "--offline", "--quiet", "--features", feature] + (["--release"] if profile == "release" else []), cwd=os.path.join(HERE, "native"), env=cargo_env(target))
    return os.path.join(BUILD, target, profile, "native"), (r.stderr if r.returncode else "")

def dump_mir(work, repo=None):
    """operand types of comparisons, from the compiler's own MIR of the current source"""
    t = os.path.join(work, "mirt"); shutil.rmtree(t, ignore_errors=True)
    env = dict(ENV, CARGO_TARGET_DIR=t); env.pop("RUSTUP_TOOLCHAIN", None)
    r = run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--", "-Zunpretty=mir", "-Zmir-include-spans=on"], cwd=repo or REPO, env=env)
    p = os.path.join(repo or work, "mir.txt")
    open(p, "w").write(r.stdout)
    shutil.rmtree(t, ignore_errors=True)
    return p, (r.stderr[-3000:] if r.returncode else "")

UNDECIDED_MSG = ("not supported", "not yet supported", "unsupported", "does not yet support", "must have a decreases clause", "rlimit", "resource limit")

def verus(work, name, src, mapp, extra=(), timeout=500):
    t0 = time.time()
    cmd = ["verus", "--edition=2018", "--multiple-errors", "4", "--output-json", "--time-expanded", "--error-format=json", *extra, src]
    r = run(cmd, timeout=timeout, cwd=work, env=ENV)
    wall = time.time() - t0
    try: js = json.loads(r.stdout)
    except Exception: js = {}
    errs = []
    for l in r.stderr.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("level") == "error" and not d.get("message", "").startswith("aborting due"): errs.append(d)
    vr = js.get("verification-results", {})
    ran = bool(vr) and not vr.get("encountered-vir-error", False) and "verified" in vr
    if vr.get("encountered-error") and not vr.get("verified", 0) and not vr.get("errors", 0) and not errs: ran = False  # Verus itself gave up
    smt = js.get("times-ms", {}).get("smt", {})
    perfn = {}
    for m in smt.get("smt-run-module-times", []) or []:
        for f in m.get("function-breakdown", []) or []: perfn[f.get("function", "?")] = f
    return {"ran": ran and r.returncode != 124, "errs": errs, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "wall": wall,
            "smt_ms": smt.get("total", 0), "perfn": perfn, "stderr": r.stderr[-4000:], "cmd": " ".join(cmd), "rc": r.returncode}

KINDS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "arithmetic",
         "decreases", "unable to prove", "possible division", "could not prove", "loop invariant", "recommendation", "index", "possible", "rlimit", "resource limit", "not satisfied", "termination")

def locate(errs, mp, srcname):
    """attach errors to functions and clauses"""
    out = []
    for d in errs:
        msg = d.get("message", "")
        spans = [s for s in d.get("spans", []) if os.path.basename(s.get("file_name", "")) == srcname]
        allspans = list(spans)
        for c in d.get("children", []): allspans += [s for s in c.get("spans", []) if os.path.basename(s.get("file_name", "")) == srcname]
        fn, clause = None, None
        for s in sorted(allspans, key=lambda s: not s.get("is_primary")):
            for f in mp["functions"]:
                if f["start"] and f["end"] and f["start"] <= s["line_start"] <= f["end"]:
                    # a call's failing precondition also shows the callee's clause: the function is the one holding the primary span
                    if fn is None: fn = f
                    for c in f["clauses"]:
                        if c["line"] and s["line_start"] <= c["line"] <= s["line_end"] and (fn is f): clause = c
        kind = "verification" if any(k in msg for k in KINDS) else "other"
        if "rlimit" in msg.lower() or "resource limit" in msg.lower(): kind = "rlimit"
        if any(k in msg for k in UNDECIDED_MSG[:5]): kind = "other"
        out.append({"msg": msg, "kind": kind, "fn": fn, "clause": clause, "line": spans[0]["line_start"] if spans else None, "text": d.get("rendered", "")})
    return out

def tags_of(f): return {t for c in f["clauses"] for t in c["tags"]}

class Result: pass

def inline_new(tool, work, mp, base):
    """Functions that the contracts do not know (new helpers): their calls are replaced by their bodies in a copy of the source,
    which is then what gets verified. The copy has to compile. Returns (root of the copy, MIR dump, report) or None."""
    new = [f for f in mp["functions"] if not f["contracted"] and base and f["key"] not in base and "#" not in f["file"]]
    if not new: return None
    root = os.path.join(work, "inlined")
    for extra in ([], ["--ret"]):
        shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(root, "src"))
        for n in os.listdir(REPO):
            if n in ("Cargo.toml", "Cargo.lock", "build.rs", "benches", "examples", "README.md", ".cargo"):
                p = os.path.join(REPO, n); (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(root, n))
        r = run([os.path.join(os.path.dirname(tool), "inline"), "--src", os.path.join(root, "src"), "--fns", ",".join("%s:%d" % (f["file"], f["line"]) for f in new)] + extra)
        if r.returncode: continue
        rep = json.loads(r.stdout)
        if not rep["inlined"]: return None
        mir, e = dump_mir(work, root)
        if not e: return root, mir, rep
    return None

def weave(tool, work, module, mir, name, args=(), root=None):
    src, mapp = os.path.join(work, name + ".rs"), os.path.join(work, name + ".json")
    r = run([tool, "--src", os.path.join(root or REPO, "src"), "--module", module, "--contracts", os.path.join(HERE, "contracts", module + ".vc"), "--mir", mir, "--out", src, "--map", mapp, *args])
    if r.returncode: return None, None, r.stderr[-2000:]
    return src, json.load(open(mapp)), ""

def prove(pid, module, tier, seed):
    """returns a Result with .obligations/.discharged/.failed/.undecided/..."""
    R = Result(); R.failed = []; R.undecided = []; R.runs = []; R.vacuous = []; R.external = []
    R.lemmas = []; R.functions = []; R.obligations = 0; R.discharged = 0; R.smt_ms = 0; R.trusted = []; R.map = None; R.verified = 0; R.checker = "verus"; R.vacuity = None; R.other_backends = []; R.inlined = None
    work = os.path.join(BUILD, "work", pid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    tool, e = build_weave()
    if e: R.undecided.append("weaver does not build: " + e[-500:]); return R
    mir, e = dump_mir(work)
    if e: R.undecided.append("the crate does not compile: " + e[-500:]); return R
    external = []
    root = None
    src, mp, e = weave(tool, work, module, mir, module)
    if e: R.undecided.append("weaver: " + e); return R
    il = inline_new(tool, work, mp, load_baseline(module))
    if il: root, mir, R.inlined = il
    for attempt in range(6):
        args = ["--external", "@@".join(external)] if external else []
        src, mp, e = weave(tool, work, module, mir, module, args, root)
        if e: R.undecided.append("weaver: " + e); return R
        v = verus(work, module, src, mp, timeout=400)
        R.runs.append(v)
        located = locate(v["errs"], mp, module + ".rs")
        if v["ran"] and not any(l["kind"] == "other" for l in located): break
        # constructs outside the verifier's subset: leave exactly those functions out and go on with the others
        more = [l["fn"]["key"] for l in located if l["fn"] is not None and l["kind"] == "other"]
        more = [k for k in dict.fromkeys(more) if k not in external]
        if not more: break
        external += more
        R.external = external
        R.undecided += ["%s: %s" % (l["fn"]["key"], l["msg"][:300]) for l in located if l["fn"] is not None and l["kind"] == "other"]
    R.map = mp; R.verified = v["verified"]; R.smt_ms = v["smt_ms"]; R.checker = v["cmd"]; R.src = src
    if not v["ran"]:
        R.undecided.append("verifier did not run to the end: " + "; ".join(l["msg"][:200] for l in located[:4]) + (v["stderr"][-300:] if not located else ""))
        return R
    # vacuity: every contracted function must be able to reach its body under its preconditions
    vsrc, vmp, e = weave(tool, work, module, mir, module + "_vacuity", ["--vacuity"] + (["--external", "@@".join(external)] if external else []), root)
    if not e:
        vv = verus(work, module + "_vacuity", vsrc, vmp, timeout=400)
        if vv["ran"] and not any(l["kind"] == "other" for l in locate(vv["errs"], vmp, module + "_vacuity.rs")):
            hit = {s["line_start"] for d in vv["errs"] for s in d.get("spans", []) if "assertion failed" in d.get("message", "")}
            lines = {f["vacuity_line"]: f["key"] for f in vmp["functions"] if f["vacuity_line"]}
            R.vacuous = sorted(k for l, k in lines.items() if l not in hit)
            R.vacuity = {"functions_probed": len(lines), "reachable": len(lines) - len(R.vacuous)}
    base = load_baseline(module)
    lost = set(mp["lost"])
    contracted = {f["key"]: f for f in mp["functions"] if f["contracted"]}
    for k in lost: R.undecided.append("contracted function %s is no longer in the source" % k)
    mine = [f for f in mp["functions"] if f["contracted"] and pid in tags_of(f)]
    failing = {}
    for l in located:
        if l["fn"] is None:
            if l["kind"] != "other": R.undecided.append("obligation outside the woven functions: %s" % l["msg"][:200])
            continue
        failing.setdefault(l["fn"]["key"], []).append(l)
    for f in mine:
        R.functions.append(f["key"])
        cl = [c for c in f["clauses"] if pid in c["tags"]]
        R.obligations += len(cl) + 1               # + the implicit ones: callee preconditions, overflow, no panic, termination
        bad = failing.get(f["key"], [])
        if f["key"] in external: continue
        if not bad and f["key"] not in R.vacuous: R.discharged += len(cl) + 1; continue
        for l in bad:
            t = set(l["clause"]["tags"]) if l["clause"] else tags_of(f)
            if pid not in t and l["clause"] is not None: continue
            item = {"function": f["key"], "file": f["file"], "source_line": f["line"], "obligation": (l["clause"]["text"] if l["clause"] else l["msg"]), "kind": l["msg"], "verifier": l["text"]}
            why = triage(f, l, mp, base, lost)
            if why: R.undecided.append("%s: %s (%s)" % (f["key"], l["msg"], why)); item["undecided"] = why
            R.failed.append(item)
        okc = [c for c in cl if not any(l["clause"] is c for l in bad)]
        if bad and all(l["clause"] is not None for l in bad): R.discharged += len(okc) + 1
        if bad and not any(x["function"] == f["key"] for x in R.failed): R.discharged += 0
    # the data invariants are kept by all functions together: a failure elsewhere in the module leaves this property unproved
    for f in mp["functions"]:
        for l in failing.get(f["key"], []) if f["contracted"] else []:
            if not any(x["function"] == f["key"] and x["kind"] == l["msg"] for x in R.failed): R.undecided.append("another obligation of the module fails: %s: %s" % (f["key"], l["clause"]["text"][:160] if l["clause"] else l["msg"]))
    # functions without a contract of their own that changed the picture
    for f in mp["functions"]:
        if not f["contracted"] and base and f["key"] not in base: R.undecided.append("function %s has no contract (new)" % f["key"])
        if f["key"] in failing and not f["contracted"]: R.undecided.append("uncontracted %s: %s" % (f["key"], failing[f["key"]][0]["msg"]))
    R.lemmas = lemmas(os.path.join(HERE, "contracts", module + ".vc"), pid)
    R.obligations += len(R.lemmas)
    bl = " ".join(l["msg"] for l in located if l["fn"] is None)
    if not bl: R.discharged += len(R.lemmas)
    R.trusted = trusted_base(src, mp)
    if mp.get("std_used"): R.trusted.append("assumed contracts of std.vc, used by this source: " + ", ".join(mp["std_used"]))
    if tier == "thorough":
        # proof stability and a second solver: other random seeds, and cvc5 where it answers
        for s in (seed + 1, seed + 2, seed + 3):
            w = verus(work, module, src, mp, ["--smt-option", "smt.random_seed=%d" % s, "--rlimit", "30"], timeout=400)
            R.other_backends.append({"backend": "z3 random_seed=%d" % s, "verified": w["verified"], "errors": w["errors"], "wall_s": round(w["wall"], 1)})
        w = verus(work, module, src, mp, ["-V", "cvc5", "--rlimit", "60"], timeout=200)
        R.other_backends.append({"backend": "cvc5", "verified": w["verified"], "errors": w["errors"], "ran": w["ran"], "wall_s": round(w["wall"], 1)})
    return R

def source_lines():
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            if f.endswith(".rs"):
                out += [re.sub(r"//.*", "", l).strip() for l in open(os.path.join(d, f), errors="replace")]
    return out

def line_hash(l): return hashlib.sha256(l.encode()).hexdigest()[:10]

def hints():
    """numbers on lines of the source that the recorded source does not have: sizes and counts the replay should look at"""
    try: known = set(json.load(open(os.path.join(HERE, "contracts", "lines.json"))))
    except Exception: return []
    names = {"u8::MAX": 255, "i8::MAX": 127, "u16::MAX": 65535, "i16::MAX": 32767, "u32::MAX": 2**32 - 1, "i32::MAX": 2**31 - 1, "usize::MAX": 2**64 - 1, "isize::MAX": 2**63 - 1, "u64::MAX": 2**64 - 1, "i64::MAX": 2**63 - 1}
    num = r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?"
    val = lambda t: int(t.replace("_", "") or "0", 0) if not re.fullmatch(r"0\d+", t) else int(t)
    out = []
    for l in source_lines():
        if not l or line_hash(l) in known: continue
        for m in re.finditer(r"(?<![\w.])" + num + r"(?:\s*(<<|\*|\.pow\(|-|\+)\s*" + num + ")?", l):
            try:
                a = val(m.group(1)); out.append(a)
                if m.group(3):
                    b = val(m.group(3)); out.append(b)
                    o = m.group(2)
                    if o == "<<" and b < 64: out.append(a << b)
                    elif o == "*": out.append(a * b)
                    elif o == "-": out.append(max(a - b, 0))
                    elif o == "+": out.append(a + b)
                    elif b < 64 and a < 1 << 16: out.append(a ** b)
            except ValueError: pass
        for n, v in names.items():
            if n in l: out.append(v)
        for m in re.finditer(r"(?:<<|>>)\s*" + num, l):
            try: out.append(1 << min(val(m.group(1)), 63))
            except ValueError: pass
    return [x for x in dict.fromkeys(out) if 3 < x < 1 << 64][:24]

def load_baseline(module):
    try: return json.load(open(os.path.join(HERE, "contracts", module + ".shape.json")))
    except Exception: return {}

def shape(f): return {"body": hashlib.sha256(f["body"].encode()).hexdigest()[:16], "form": hashlib.sha256(f["skeleton"].encode()).hexdigest()[:16], "nloops": f["nloops"], "nclosures": f["nclosures"], "calls": f["calls"], "pieces": pieces(f["body"])}

def pieces(body): return [hashlib.sha256(x.encode()).hexdigest()[:6] for x in (" ".join(y.split()) for y in re.split(r"[;{}]", body)) if x]

def reordered(old, new):
    """the statements common to both texts do not come in the same order"""
    from collections import Counter
    c = Counter(old) & Counter(new)
    return [x for x in old if c[x] == Counter(old)[x] == Counter(new)[x]] != [x for x in new if c[x] == Counter(old)[x] == Counter(new)[x]]

# standard-library functions whose contracts (vstd's, or contracts/std.vc) say all there is to say about the result
EXACT = set("""wrapping_add wrapping_sub wrapping_mul checked_add checked_sub checked_mul saturating_add saturating_sub is_some is_none is_ok is_err
unwrap expect take as_ref as_mut unwrap_or ok_or swap replace then reverse is_lt is_le is_gt is_ge is_eq is_ne or xor zip and copied then_some
max min cmp partial_cmp eq ne lt le gt ge not Some Ok Err None""".split())

# contracted functions whose postcondition is an equation the solver uses by itself: they may appear anywhere; calls of
# others (histories of unions, sequences of an iterator) take lemmas that a changed text does not carry
PLAIN = {"CircularBuffer::" + x for x in ("len", "capacity", "is_empty", "is_full", "first", "last", "internal_index", "incr_start", "incr_end", "decr_start", "decr_end")} | {"DisjointSet::" + x for x in ("len", "is_empty", "contains")}

def triage(f, l, mp, base, lost):
    """a reason why the failed obligation does not by itself mean that the code is wrong, or None"""
    if l["kind"] == "rlimit": return "resource limit"
    b = base.get(f["key"])
    if not b: return "no recorded shape"
    if shape(f)["body"] == b["body"]: return "the function's own text is unchanged"
    if f["notes"]: return "; ".join(f["notes"])
    changed = [n for n, d in base.get("#types", {}).items() if mp["types"].get(n) != d]
    if changed: return "the representation changed, which the data invariant is about: " + ", ".join(changed)
    same_form = shape(f)["form"] == b["form"]
    known = EXACT | {g["key"].split("::")[-1] for g in mp["functions"] if g["contracted"] and not g["external"] and (same_form or f["file"].startswith("src/interval/") or g["key"] in PLAIN)}
    new = [c for c in f["calls"] if c not in b["calls"] and c not in known]
    if new: return "calls that the proof text does not know: " + ", ".join(new)
    if f["nclosures"] != b["nclosures"]: return "a closure without a contract"
    # names, literals and operators apart, the text is what the proof was written for: nothing in the proof can have lost its place
    if same_form: return "the statements were reordered" if (f["anchors"] or f["nloops"]) and reordered(b.get("pieces", []), shape(f)["pieces"]) else None
    if f["nloops"] != b["nloops"] or f["nloops"]: return "the function has loops: its invariants may not fit the new text"
    if f["anchors"]: return "the proof text may not fit the new text"
    if l["clause"] is None and "precondition" in l["msg"] and "vpanic" not in l["text"]: return "a callee's precondition"
    return None

def lemmas(vc, pid):
    out, cur = [], ""
    for line in open(vc):
        t = line.strip()
        if t.startswith("//"):
            m = re.match(r"//\s*((?:[A-Z]\d\d[, ]*)+):", t)
            if m: cur = m.group(1)
        elif re.match(r"(pub )?(broadcast )?proof fn ", t):
            n = re.search(r"proof fn (\w+)", t).group(1)
            if pid in re.findall(r"[A-Z]\d\d", cur): out.append(n)
        elif "spec fn" in t: cur = ""
    return out

def trusted_base(src, mp):
    """mechanical scan of what the verified text assumes"""
    out = []
    text = open(src).read()
    stub = len(re.findall(r"external_body\]", text))
    n = sum(1 for f in mp["functions"] if f["kind"] == "split")
    names = []
    for m in re.finditer(r"external_body\][^\n]*\n(?:\s*#\[[^\n]*\n)*[^\n]*?\bfn (\w+)", text): names.append(m.group(1))
    from collections import Counter
    c = Counter(names)
    out.append("external_body: " + ", ".join("%s x%d" % (k, v) if v > 1 else k for k, v in sorted(c.items())))
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.+?)\s*\]\s*\(", text): out.append("assumed std contract: " + re.sub(r"\s+", " ", m.group(1)))
    a = len(re.findall(r"\bassume\s*\(", text)) + len(re.findall(r"\badmit\s*\(", text))
    out.append("assume/admit statements: %d" % a)
    ax = re.findall(r"axiom fn (\w+)", text)
    if ax: out.append("axioms: " + ", ".join(ax))
    if n: out.append("%d comparison/trait functions are proved on an inherent copy of their body; the trait impl carries the same contract unproved (the verifier rejects trait cycles)" % n)
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if tier != "thorough": DEADLINE[0] = t0 + 800
    module = MODULES[pid[0]]
    native = {}
    def nat():
        try: search(native, pid, [("debug", seed), ("release", seed + 1)] + ([(p, seed + k) for k in range(2, 12) for p in ("debug", "release")] if tier == "thorough" else []), 4 if tier == "thorough" else 2)
        except Exception as ex: native["error"] = repr(ex)
    th = threading.Thread(target=nat); th.start()
    try: R = prove(pid, module, tier, seed)
    except Exception as ex:
        import traceback; traceback.print_exc()
        R = Result(); R.__dict__.update(failed=[], undecided=["driver: " + repr(ex)], runs=[], vacuous=[], external=[], lemmas=[], functions=[], obligations=0, discharged=0, smt_ms=0, trusted=[], map=None, verified=0, checker="verus", vacuity=None, other_backends=[], inlined=None)
    th.join()
    if (R.failed or R.undecided) and not native.get("failure") and not native.get("error") and left() > 250:
        # the proof is in trouble: look further for an input
        try: search(native, pid, [(p, seed + k) for k in range(20, 24) for p in ("debug", "release")], 6)
        except Exception as ex: native["error"] = repr(ex)
    finish(pid, module, tier, seed, R, native, time.time() - t0)

def search(native, pid, jobs, width):
    """runs the replay crate once per (profile, seed), adds up what it looked at, stops at the first failure"""
    exes = {}
    ps = sorted({p for p, _ in jobs})
    with ThreadPoolExecutor(2) as ex: built = list(ex.map(lambda p: build_native(pid, p), ps))
    for p, (exe, e) in zip(ps, built):
        exes[p] = exe
        if e: native["error"] = "replay crate does not build (%s): %s" % (p, e[-1500:]); return
    def one(j):
        if native.get("failure"): return
        r = run_native(exes[j[0]], pid, j[1], hints=hs)
        if r.get("failure"): r["failure"].update(profile=j[0], seed=j[1], hints=hs)
        with guard:
            native["runs"] = native.get("runs", []) + ["%s seed %d" % j]
            for k in ("evaluations", "distinct_nontrivial"): native[k] = native.get(k, 0) + r.get(k, 0)
            for k, v in r.items():
                if k in ("evaluations", "distinct_nontrivial"): continue
                if k == "failure": native[k] = native.get(k) or v
                elif v: native[k] = native.get(k) or v
    guard = threading.Lock()
    if "std" not in native: native["std"] = run_native(exes["debug"], "STD", jobs[0][1])
    hs = hints()
    if hs: native["sizes_from_the_source"] = hs
    with ThreadPoolExecutor(width) as ex: list(ex.map(one, jobs))

def limits(): resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

def run_native(exe, pid, seed, case=None, hints=()):
    trace = os.path.join(BUILD, "trace-%s-%s-%d.txt" % (pid, os.path.basename(os.path.dirname(exe)), seed))
    cmd = [exe, pid, "--seed", str(seed)] + (["--hints", ",".join(map(str, hints))] if hints else [])
    if case is not None: cmd += ["--case", str(case)]
    r = run(cmd, timeout=200, preexec_fn=limits)
    try: return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: pass
    # it died or hangs: find the case by tracing, and make sure that the case does it by itself
    if os.path.exists(trace): os.remove(trace)
    r2 = run(cmd + ["--trace", trace], timeout=150, preexec_fn=limits)
    last = open(trace).read() if os.path.exists(trace) else ""
    m = re.match(r"case (\d+) (.*)", last, re.S)
    if r2.returncode == 0 or not m: return {"error": "replay run ended with code %d: %s" % (r.returncode, r.stderr[-500:])}
    if left() < 110: return {"error": "replay run ended with code %d in case %s, no time left to look at it by itself" % (r.returncode, m.group(1))}
    r3 = run(cmd + ["--case", m.group(1)], timeout=100, preexec_fn=limits)
    if r3.returncode == 0 and not {r.returncode, r2.returncode} <= {-4, -5, -6, -7, -8, -11}: return {"error": "replay run ended with code %d, case %s by itself does not: %s" % (r.returncode, m.group(1), r.stderr[-500:])}
    if r3.returncode == 0:
        # twice in the run of all cases, not alone: what it reads is left over from the cases before it
        return {"evaluations": int(m.group(1)) + 1, "distinct_nontrivial": int(m.group(1)) + 1,
                "failure": {"case": None, "what": "the process died, twice, in the run of all cases", "input": "%s (after the cases before it; not by itself)" % m.group(2).strip(), "expected": "no crash", "observed": "exit codes %d and %d" % (r.returncode, r2.returncode)}}
    if r3.returncode == -9: return {"error": "replay run was killed"}
    hung = r3.returncode == 124
    return {"evaluations": int(m.group(1)) + 1, "distinct_nontrivial": int(m.group(1)) + 1,
            "failure": {"case": int(m.group(1)), "what": "the call does not return" if hung else "the process died", "input": m.group(2).strip(),
                        "expected": "an answer" if hung else "no crash", "observed": "nothing within 100 s" if hung else "exit code %d" % r3.returncode}}

def findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            if l.startswith("known: property=%s " % pid): out.append(l.strip()[len("known: "):])
    except FileNotFoundError: pass
    return out

def finish(pid, module, tier, seed, R, native, wall):
    out = os.path.join(BUILD, "replay"); os.makedirs(out, exist_ok=True)
    fail = native.get("failure")
    violations = 0
    line = None
    exhausted = [x for x in R.failed if "undecided" not in x]
    if fail:
        p = os.path.join(out, "%s.json" % pid)
        json.dump({"property": pid, "failing_input": fail, "seed": seed, "tier": tier,
                   "replay": "cd /verif && VERIF_SEED=%d python3 check.py --replay %s" % (seed, p),
                   "failed_obligations": R.failed}, open(p, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, p); violations = 1
    elif exhausted:
        p = os.path.join(out, "%s.json" % pid)
        json.dump({"property": pid, "failing_input": None, "failed_obligations": R.failed, "checker": R.checker}, open(p, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p); violations = 1
    proved = not R.failed and not R.undecided and R.obligations > 0 and R.discharged == R.obligations and not R.vacuous
    ev = native.get("evaluations", 0)
    std = native.get("std") or {}
    if std.get("failure"): R.undecided.append("a contract assumed of the standard library does not hold: %s" % std["failure"]); proved = False
    cov = {"obligations": R.obligations, "discharged": R.discharged, "checker_cmd": R.checker, "trusted_base": R.trusted + assumptions(pid)[1],
           "functions_under_contract": R.functions, "lemmas": R.lemmas, "backend": "Verus 0.2026.09.13 (Z3 4.12.5 bundled)", "solver_ms": R.smt_ms,
           "verifier_functions_verified_in_module": R.verified, "vacuity": R.vacuity, "vacuous": R.vacuous, "undecided": R.undecided, "failed": [{k: v for k, v in x.items() if k != "verifier"} for x in R.failed],
           "left_out_of_proof_this_run": R.external, "other_backends": R.other_backends,
           "bounded_replay": {k: native.get(k) for k in ("runs", "sizes_from_the_source", "evaluations", "distinct_nontrivial", "rule", "samples", "exhaustive", "error") if native.get(k) is not None},
           "assumed_std_contracts_executed": {k: std.get(k) for k in ("evaluations", "failure", "error") if k in std},
           "evaluations": ev, "distinct_nontrivial": native.get("distinct_nontrivial", 0), "rule": native.get("rule", ""), "samples": native.get("samples", [])}
    if R.map:
        cov["desugarings"] = R.map["desugarings"]; cov["dropped_by_extraction"] = R.map["dropped"]
        if R.inlined: cov["new_helpers_inlined"] = R.inlined
    level = "proof" if proved or violations else "exploration"
    if not proved and not violations: cov["explanation"] = "the proof could not be carried out on this source (see undecided); this run rests on the bounded replay alone"
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions(pid)[0], "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: obligations %d discharged %d (%d functions, %d lemmas), solver %d ms; replay %d cases; %.1f s" % (pid, R.obligations, R.discharged, len(R.functions), len(R.lemmas), R.smt_ms, ev, wall))
    for u in R.undecided[:8]: print("undecided: " + u[:300].replace("\n", " "))
    if R.vacuous: print("vacuous: " + ", ".join(R.vacuous))
    if native.get("error"): print("replay: " + native["error"][:600])
    for k in findings(pid):
        if native.get("known") or native.get("error"): print("KNOWN-FINDING: " + k)
    if line:
        if fail: print("failing input: %s | %s: expected %s, observed %s" % (fail["input"][:400], fail["what"], fail["expected"][:200], fail["observed"][:200]))
        for x in R.failed[:4]: print("failed obligation: %s (%s:%s): %s [%s]" % (x["function"], x["file"], x["source_line"], x["obligation"][:300], x["kind"]))
        print(line)
        sys.exit(1)
    sys.exit(0)

def assumptions(pid):
    try: d = json.load(open(os.path.join(HERE, "contracts", "assumptions.json")))
    except Exception: return [], []
    m = d.get(MODULES[pid[0]], {})
    return m.get("assumptions", []) + m.get(pid, []), m.get("trusted", [])

def replay(path):
    d = json.load(open(path))
    f = d.get("failing_input")
    if not f: print(json.dumps(d, indent=1)); sys.exit(1)
    exe, e = build_native(d["property"], f["profile"])
    if e: print(e); sys.exit(2)
    r = run_native(exe, d["property"], f["seed"], f["case"], f.get("hints") or ())
    print(json.dumps(r.get("failure"), indent=1))
    sys.exit(1 if r.get("failure") else 0)

def record_shapes():
    tool, e = build_weave()
    json.dump(sorted({line_hash(l) for l in source_lines() if l}), open(os.path.join(HERE, "contracts", "lines.json"), "w"), indent=0)
    work = os.path.join(BUILD, "work", "shapes"); os.makedirs(work, exist_ok=True)
    mir, e = dump_mir(work)
    for m in MODULES.values():
        if not os.path.exists(os.path.join(HERE, "contracts", m + ".vc")): continue
        s, mp, e = weave(tool, work, m, mir, m)
        if e: print(m, e); continue
        json.dump(dict({f["key"]: shape(f) for f in mp["functions"]}, **{"#types": mp["types"]}), open(os.path.join(HERE, "contracts", m + ".shape.json"), "w"), indent=0, sort_keys=True)

if __name__ == "__main__":
    if sys.argv[1] == "--replay": replay(sys.argv[2])
    elif sys.argv[1] == "--setup":
        print(build_weave()[1])
        for p in ("debug", "release"): print(build_native("K01", p)[1])   # the rest is built by the checks, from the source of the day
        sys.exit(0)
    elif sys.argv[1] == "--record-shapes": record_shapes()
    else: main()
