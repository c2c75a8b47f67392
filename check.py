#!/usr/bin/env python3
"""check.py ID   decides one property of /repo's current working tree.

1. extract: the functions under contract are cut out of /repo/src and joined with
   the contracts of contracts/*.vrs into one Verus crate (extract/).
2. verify: Verus discharges the obligations of every function; the property is
   decided by those of the functions and laws it owns (props.json).
3. search: the harness runs the real crate on enumerated and generated inputs
   against independent oracles: it finds the failing input behind a refuted
   obligation, and stands in, bounded, for functions outside the verifier's reach.

Exit 0: held. Exit 1: a VIOLATION line. Nothing else is an outcome.
"""
import fnmatch, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
KNOWN = os.path.join(HERE, "known_findings.txt")
ENV = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)


def run(cmd, timeout, cwd=HERE, env=None, mem=None):
    def lim():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setsid()
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, text=True, errors="replace", preexec_fn=lim)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, e = p.communicate()
            return "timeout", o, e
    except OSError as x:
        return "oserror", "", str(x)


def tree_hash():
    """what the harness is built from: /repo's sources and manifest, and this directory's"""
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "harness", "src"), os.path.join(HERE, "harness", "Cargo.lock")):
        fs = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, _, ff in os.walk(base) for f in ff)
        for f in fs:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def forget_harness():
    """cargo trusts modification times; a restored tree may be older than the build.
    Unless the last build was of exactly this text, make cargo look again."""
    f = os.path.join(BUILD, "harness", "tree.sha256")
    t = tree_hash()
    if not os.path.exists(f) or open(f).read() != t:
        if os.path.exists(f):
            os.remove(f)
        for d in glob.glob(os.path.join(BUILD, "harness", "debug", ".fingerprint", "templito-*")) + glob.glob(os.path.join(BUILD, "harness", "debug", ".fingerprint", "harness-*")):
            shutil.rmtree(d, ignore_errors=True)
    return f, t


def build(crate):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, crate))
    r, o, e = run(["cargo", "build", "--offline", "--quiet"], 600, os.path.join(HERE, crate), env)
    return r == 0, e[-3000:]


# ------------------------------------------------------------------ proof part
class Proof:
    """One extraction and verification of the whole crate."""

    def __init__(self, work):
        self.work = work
        self.degraded = []      # keys taken out, with the reason
        self.error = None
        self.results = {}       # verus path -> (ok, ms, mode)
        self.keys = {}          # key -> dict(status, drift, path, lo, hi)
        self.msgs = []
        self.text = []
        self.smt_ms = 0
        self.lost = []
        os.makedirs(work, exist_ok=True)

    def extract(self):
        ex = os.path.join(BUILD, "extract", "debug", "extract")
        crate, rep = os.path.join(self.work, "crate.rs"), os.path.join(self.work, "report.tsv")
        cmd = [ex, REPO, os.path.join(HERE, "contracts"), crate, rep]
        for k, _ in self.degraded:
            cmd += ["--degrade", k]
        r, o, e = run(cmd, 120)
        if r != 0:
            self.error = "extraction failed: " + e[-500:]
            return False
        self.text = open(crate).read().split("\n")
        self.keys, self.rewrites, self.uncontracted = {}, [], []
        for l in open(rep):
            w = l.rstrip("\n").split("\t")
            if w[0] == "fn":
                self.keys.setdefault(w[1], {}).update(status=w[2], drift=w[3] if len(w) > 3 else "")
            elif w[0] == "item" and w[2] != "ok":
                self.lost.append(w[1])
            elif w[0] in ("from", "to"):
                self.keys.setdefault(w[1], {})[w[0]] = int(w[2])
            elif w[0] == "rewrite":
                self.rewrites.append(w[1] + ": " + w[2])
            elif w[0] == "uncontracted":
                self.uncontracted.append(w[1])
        # the verus path of every key, from the module structure of the text
        stack, depth, mods = [], 0, {}
        for n, l in enumerate(self.text, 1):
            m = re.match(r"\s*(?:pub )?mod (\w+)\s*\{", l)
            if m and not l.rstrip().endswith("}"):
                stack.append((m.group(1), depth))
            c = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'|//.*', "", l)
            depth += c.count("{") - c.count("}")
            while stack and depth <= stack[-1][1]:
                stack.pop()
            mods[n] = "::".join(s for s, _ in stack)
        self.mods = mods
        for k, d in self.keys.items():
            if "from" in d and "to" in d:
                body = "\n".join(self.text[d["from"] - 1:d["to"]])
                m = re.search(r"\bfn\s+(\w+)", body)
                d["name"] = m.group(1) if m else "?"
                d["mod"] = mods.get(d["from"], "")
        return True

    def verus(self):
        crate = os.path.join(self.work, "crate.rs")
        t = time.time()
        r, o, e = run(["verus", crate, "--output-json", "--time-expanded", "--triggers-mode", "silent",
                       "--multiple-errors", "4", "--num-threads", "8"], 280, self.work, mem=24 << 30)
        self.wall = time.time() - t
        self.stderr = e
        if r == "timeout":
            self.error = "verus timed out"
            return False
        try:
            j = json.loads(o[o.index("{"):])
        except ValueError:
            self.error = "no verifier result"
            return False
        vr = j.get("verification-results", {})
        self.version = j.get("verus", {}).get("version", "?")
        mods = j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])
        self.results = {}
        for m in mods:
            for f in m.get("function-breakdown", []):
                p = f["function"].replace("crate::", "", 1)
                ok, ms, mode = self.results.get(p, (True, 0, f.get("mode", f.get("mode:", ""))))
                self.results[p] = (ok and f["success"], ms + f.get("time-micros", 0) / 1000, mode)
        self.smt_ms = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        if not self.results or vr.get("encountered-vir-error") or "verified" not in vr:
            self.error = "the crate was rejected before verification"
            return False
        return True

    def diags(self):
        """(message, [lines], text) of every error"""
        out = []
        for b in re.split(r"\n(?=error)", self.stderr):
            if not b.startswith("error"):
                continue
            ls = [int(x) for x in re.findall(r"crate\.rs:(\d+):", b)] + [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", b, re.M)]
            out.append((b.split("\n")[0], ls, b))
        return out

    def key_at(self, line):
        for k, d in self.keys.items():
            if d.get("from", 1 << 30) <= line <= d.get("to", -1):
                return k
        return None

    def go(self):
        for _ in range(7):
            self.error = None
            if not self.extract():
                return
            if self.verus():
                return
            # take out the functions the verifier cannot take in their present form
            bad = set()
            for m, ls, _ in self.diags():
                for n in ls[:1] + ls[1:]:
                    k = self.key_at(n)
                    if k and self.keys[k].get("status") in ("ok", "decl"):
                        bad.add((k, m))
                        break
            have = {k for k, _ in self.degraded}
            bad = {(k, m) for k, m in bad if k not in have}
            if not bad:
                return
            self.degraded += sorted(bad)

    def guard(self):
        """the obligations that must fail: None if one was not run, (ok of any,) otherwise"""
        g = [self.results.get("vacuity::" + n) for n in ("must_fail", "must_fail_rel")]
        return None if None in g else (any(x[0] for x in g),)

    def path_of(self, k):
        d = self.keys[k]
        if "for" in k.split("|")[1] and "#" not in k:
            # an impl for a type of the library or for a reference, a primitive or a tuple
            t = re.sub(r"<[^<>]*>", "", k.split("|")[1].split("for", 1)[-1].rsplit("::", 1)[0]).rsplit("::", 1)[-1]
            n = d.get("name", "?")
            c = [p for p in self.results if re.match(r"(std|core|alloc)::", p) and p.endswith("::" + t + "::" + n)]
            if len(c) == 1:
                return c[0]
            if not re.fullmatch(r"[A-Z]\w*", t):
                # verus numbers these in the order of the text
                pl = sorted((p for p in self.results if re.fullmatch(re.escape(d.get("mod", "?")) + r"::impl&%\d+::" + n, p)),
                            key=lambda p: int(re.search(r"%(\d+)", p).group(1)))
                kl = sorted((q for q, e in self.keys.items() if e.get("mod") == d.get("mod") and e.get("name") == n and "from" in e
                             and not re.fullmatch(r"[A-Z]\w*", re.sub(r"<[^<>]*>", "", q.split("|")[1].split("for", 1)[-1].rsplit("::", 1)[0]).rsplit("::", 1)[-1])),
                            key=lambda q: self.keys[q]["from"])
                if k in kl and len(kl) == len(pl):
                    return pl[kl.index(k)]
        if "::" in k.split("|")[1] and "#" not in k:
            full = re.sub(r"<[^<>]*>", "", k.split("|")[1].split("for", 1)[-1].rsplit("::", 1)[0]) + "::" + d.get("name", "")
            c = [p for p in self.results if p.endswith("::" + full) and re.fullmatch(r"\w+(::\w+)*", full)]
            if len(c) == 1:
                return c[0]
        c = [p for p in self.results if p.rsplit("::", 1)[-1] == d.get("name") and (p.startswith(d.get("mod", "?") + "::"))
             and re.sub(r"impl&%\d+::", "", p).count("::") <= d["mod"].count("::") + 2]
        if not c and "::" in k.split("|")[1]:
            # an impl in another module than its type goes by the module of the type
            t = k.split("|")[1].split("::")
            c = [p for p in self.results if p.split("::")[-2:] == [re.sub(r"<[^<>]*>$", "", t[-2].split("for")[-1]), d.get("name")]]
        if len(c) > 1:
            q = [p for p in c if p == d["mod"] + "::" + d["name"]]
            t = k.split("|")[1].split("::")
            c = [p for p in c if len(t) > 1 and p.split("::")[-2] in (t[-2], t[-2].split("for")[-1])] or q or c
        return c[0] if c else None


REFUTE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
          "possible arithmetic", "possible division", "index out of bounds", "could not prove termination", "decreases not satisfied",
          "unreachable", "unable to prove post-condition of closure", "constructed value may fail", "recommendation")


def scan_trusted(text):
    t = "\n".join(text)
    t = re.sub(r"//.*", "", t)
    out = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", t, re.S):
        out.append("assumed contract: " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"axiom fn (\w+)", t):
        out.append("axiom: " + m.group(1))
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*|/\*[^*]*\*/\s*)*(?:pub(?:\([^)]*\))? )?(?:proof |exec |const |unsafe )*(fn|struct|enum|type|trait) (\w+)", t):
        out.append("external body: %s %s" % (m.group(1), m.group(2)))
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        out.append("in-proof %s at offset %d" % (m.group(1), m.start()))
    return sorted(set(out))


# ------------------------------------------------------------------ search part
def search(pid, seed, tier, work, timeout, extra=()):
    hs = os.path.join(BUILD, "harness", "debug", "harness")
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch, exist_ok=True)
    base = [hs, "run", pid, "--seed", str(seed), "--known", KNOWN, "--dir", scratch] + (["--thorough"] if tier == "thorough" else []) + list(extra)
    r, o, e = run(base, timeout, scratch, mem=16 << 30)
    if r == 0:
        try:
            return json.loads(o.strip().split("\n")[-1])
        except ValueError:
            return {"error": "no result from the harness"}
    if r == 4 or r == "oserror":
        return {"error": "harness failure: " + e[-300:]}
    if r == "timeout":
        return {"error": "the search ran out of time"}
    # the process died, or a case hung: find out which one
    tr = os.path.join(work, "trace")
    r2, _, _ = run(base + ["--trace", tr], timeout, scratch, mem=16 << 30)
    try:
        last = open(tr).read().rstrip("\n").split("\n")[-1]
        case = json.loads(last)
    except (OSError, ValueError):
        return {"error": "the harness ended with %s and left no trace" % r}
    if r2 == 0:
        return {"error": "the harness ended with %s once and well the second time" % r}
    if r2 == "timeout":
        return {"error": "the search ran out of time"}
    why = "one call ran for more than 20 s" if r2 == 3 else "the process was ended (%s)" % r2
    return {"evaluations": 1, "distinct_nontrivial": 1, "samples": [case], "known": [], "fails": [{"case": case, "why": why}]}


def lanes(n, pid, seed, tier, work, timeout):
    """n searches side by side, each from a seed of its own"""
    from concurrent.futures import ThreadPoolExecutor
    ws = [work if i == 0 else os.path.join(work, "lane%d" % i) for i in range(n)]
    for w in ws:
        os.makedirs(w, exist_ok=True)
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda i: search(pid, seed + 100003 * i, tier, ws[i], timeout), range(n)))
    bad = [r for r in rs if r.get("fails")]
    if bad:
        return bad[0]
    good = [r for r in rs if not r.get("error")]
    if not good:
        return rs[0]
    res = good[0]
    for r in good[1:]:
        for f in ("evaluations", "distinct_nontrivial"):
            res[f] = res.get(f, 0) + r.get(f, 0)
        res["known"] = sorted(set(res.get("known", [])) | set(r.get("known", [])))
    if len(good) < n:
        res["lanes_lost"] = n - len(good)
    return res


def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    props = json.load(open(os.path.join(HERE, "props.json")))
    P = props[pid]
    work = os.path.join(BUILD, "work", pid)
    os.makedirs(work, exist_ok=True)
    notes = []

    hp = None
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"))
    if P.get("search", True):
        stamp, tree = forget_harness()
        try:
            hp = subprocess.Popen(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"), env=env,
                                  stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "harness.log"), "w"), stdin=subprocess.DEVNULL)
        except OSError as x:
            notes.append(str(x))

    # ---- proof
    pr = Proof(work)
    owned, laws = {}, {}
    refuted, undecided = [], []
    okb, msg = build("extract")
    if P.get("own") or P.get("laws"):
        if okb:
            pr.go()
        else:
            pr.error = "extractor does not build: " + msg
        for k in pr.keys:
            if any(fnmatch.fnmatchcase(k, pat) for pat in P.get("own", [])):
                if pr.keys[k].get("status") != "decl":   # a trait's method without a body: its contract is proved at each impl
                    owned[k] = pr.path_of(k) if pr.results else None
        for p in pr.results:
            if any(fnmatch.fnmatchcase(p, pat) for pat in P.get("laws", [])):
                laws[p] = pr.results[p]
        guard = pr.guard()
        if pr.error:
            undecided.append("whole crate: " + pr.error)
        elif guard is None or guard[0]:
            pr.error = "vacuity guard: the axioms prove false, or the guard was not run"
            undecided.append(pr.error)
        else:
            di = pr.diags()
            for k, p in sorted(owned.items()):
                d = pr.keys[k]
                if d.get("status") in ("lost", "shape", "degraded", "missing"):
                    undecided.append("%s: %s %s" % (k, d.get("status"), d.get("drift", "")))
                    continue
                if d.get("status") == "trusted" or p is None:
                    if d.get("status") != "trusted":
                        undecided.append("%s: no obligation was generated" % k)
                    continue
                if not pr.results[p][0]:
                    ms = [(m, b) for m, ls, b in di if any(pr.key_at(n) == k for n in ls)]
                    if not ms and any(q != k and pr.path_of(q) == p and any(pr.key_at(n) == q for _, ls, _ in di for n in ls) for q in pr.keys):
                        continue    # the verifier gives both functions one name; the failing obligation is the other's
                    # a clause marked with a property's name belongs to that property alone
                    other = [x for x in ms if "// only " in x[1] and "// only " + pid not in x[1]]
                    if k in P.get("marked", []):
                        other = [x for x in ms if "// only " + pid not in x[1]]
                    if ms and len(other) == len(ms):
                        notes.append("%s: what fails here concerns another property" % k)
                        continue
                    ms = [x for x in ms if x not in other]
                    txt = "\n".join(b for _, b in ms)
                    # the invariants fit the loops and closures they were written for
                    if d.get("drift") and "straight-line" not in d["drift"] and set(d["drift"].split(",")) - {"calls"}:
                        undecided.append("%s: the body has a new shape (%s) and the old proof does not fit it" % (k, d["drift"]))
                    elif ms and all(any(x in m for x in REFUTE) for m, _ in ms) and "rlimit" not in txt.lower():
                        refuted.append((k, ms[0][0], txt[:6000]))
                    else:
                        undecided.append("%s: %s" % (k, ms[0][0] if ms else "not discharged"))
            for p, (ok, _, _) in laws.items():
                if not ok:
                    undecided.append("law %s not discharged" % p)
        for l in pr.lost:
            notes.append("item not found: " + l)

    # ---- search
    S = {"none": True}
    if hp is not None:
        hp.wait()
        if hp.returncode != 0:
            S = {"error": "the harness does not build against this tree: " + open(os.path.join(work, "harness.log")).read()[-1500:]}
        else:
            open(stamp, "w").write(tree)
            S = lanes(P.get("lanes", 1), pid, seed, tier, work, 700 if tier == "thorough" else 240)
            left = 700 - (time.time() - t0)
            if not S.get("fails") and not S.get("error") and (refuted or undecided) and tier == "quick" and left > 60:
                # something is undecided: look harder for a failing input
                D = lanes(P.get("lanes", 1), pid, seed + 7919, "thorough", work, min(left, P.get("deep", 150)))
                if D.get("fails"):
                    S = D
                elif not D.get("error"):
                    S["evaluations"] = S.get("evaluations", 0) + D.get("evaluations", 0)
                    S["distinct_nontrivial"] = S.get("distinct_nontrivial", 0) + D.get("distinct_nontrivial", 0)

    # ---- verdict
    rc = 0
    lines = []
    for k in S.get("known", []):
        why = ""
        for l in open(KNOWN):
            if l.startswith("open: property=%s case=%s" % (pid, k)):
                why = l.split(" :: ", 1)[-1].strip()
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, why))
    rdir = os.path.join(HERE, "replay")
    rep = os.path.join(rdir, pid + ".json")
    viol = 0
    if S.get("fails") or refuted:
        os.makedirs(rdir, exist_ok=True)
        viol = len(S.get("fails") or refuted)
        json.dump({
            "property": pid, "seed": seed, "tier": tier,
            "how": "%s/.build/harness/debug/harness replay %s runs these cases on the real crate" % (HERE, rep),
            "cases": S.get("fails", []),
            "failed_obligations": [{"function": k, "obligation": m, "verifier_output": t} for k, m, t in refuted],
        }, open(rep, "w"), indent=1, ensure_ascii=False)
        for c in S.get("fails", [])[:3]:
            print("failing input: %s\n  %s" % (json.dumps(c["case"], ensure_ascii=False)[:600], c["why"][:600]))
        for k, m, _ in refuted[:5]:
            print("obligation not discharged: %s: %s" % (k, m))
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rep, "" if S.get("fails") else " no-failing-input-found"))
        rc = 1
    elif os.path.exists(rep):
        os.remove(rep)

    # ---- evidence
    obl = {k: pr.results[p] for k, p in list(owned.items()) + [(l, l) for l in laws] if p and p in pr.results}
    disc = sum(1 for p, v in obl.items() if v[0])
    cov = {
        "obligations": len(obl), "discharged": disc,
        "checker_cmd": "verus %s/.build/work/%s/crate.rs (Verus %s, Z3 back end); the crate is rebuilt from %s/src by extract/ on every run" % (HERE, pid, getattr(pr, "version", "?"), REPO),
        "trusted_base": scan_trusted(pr.text) if pr.text else [],
        "functions_under_contract": sorted("%s: %s" % (k, "proved" if (p in pr.results and pr.results[p][0]) else pr.keys[k].get("status", "?") + (" (assumed)" if pr.keys[k].get("status") == "trusted" else "")) for k, p in owned.items()),
        "laws": sorted(laws),
        "solver_ms": round(sum(v[1] for v in obl.values()), 1), "solver_ms_whole_crate": pr.smt_ms,
        "extraction_rewrites": sorted(r for r in getattr(pr, "rewrites", []) if r.split(": ")[0] in owned),
        "undecided_by_proof": undecided, "taken_out": ["%s: %s" % x for x in pr.degraded],
        "bounded_search": "labelled bounded, not counted as proved: " + P.get("bounded", "the functions above are also run on enumerated and seeded inputs against an independent oracle"),
        "evaluations": S.get("evaluations", 0), "distinct_nontrivial": S.get("distinct_nontrivial", 0),
        "rule": P.get("rule", "small-scope enumeration plus generation from the seed; non-trivial: the oracle fixes the result and the case is not degenerate"),
        "samples": S.get("samples", [])[:4],
    }
    if S.get("error"):
        cov["search_error"] = S["error"]
    if P.get("not_covered"):
        cov["not_covered"] = P["not_covered"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []) + notes, "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %d of %d obligations discharged, %d undecided; %d cases run%s; %.1f s" % (
        pid, disc, len(obl), len(undecided), S.get("evaluations", 0), " (search: %s)" % S["error"] if S.get("error") else "", time.time() - t0))
    for u in undecided[:8]:
        print("undecided: " + u)
    for l in lines:
        print(l)
    sys.exit(rc)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as x:  # no outcome is an error of the check, never an alarm
        import traceback
        traceback.print_exc()
        sys.exit(2)
