#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source.

1. vx extracts the functions under contract from /repo/src (mechanically, every run)
   and weaves the contracts of /verif/overlays into them;
2. Verus (Z3) has to discharge every obligation generated from that text;
3. a second run with an assertion that cannot hold behind every precondition and
   loop invariant has to fail at every one of them (no vacuous contract);
4. an obligation of this property that fails is the violation. The searcher
   /verif/replay looks for an input on which the real library shows it.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"  # the one Verus is built for
PARSER = ["pp", "atom", "expr", "main", "theory"]
OVERLAYS = {
    "C01": PARSER, "C02": PARSER, "C03": PARSER, "C04": PARSER, "C05": PARSER, "C06": PARSER, "C07": PARSER,
    "C08": PARSER, "C09": PARSER, "C10": PARSER, "C11": ["pp", "atom", "term", "gterm"], "C12": PARSER,
    "C13": ["ast"], "C14": ["ast"], "C15": ["ast"], "C16": ["flat"], "C17": ["acc"], "C18": ["rules"],
    "C19": ["pegrd", "pegtop"], "C20": ["pegrd", "pegtop"], "C21": ["pegrd", "pegtop"], "C22": ["gcode", "macros"], "C23": ["builtin"],
    "C24": ["pegrd", "pegtop", "builtin"],
}
GRAMMAR = {"builtin", "pegtop", "gterm"}  # overlays that use the published grammar
LEMMAS = {"pegtop", "gterm"}  # their lemmas hold for the grammar as published; another grammar needs other lemmas and breaks nothing by that alone
ALWAYS_C12 = re.compile(r"precondition not satisfied|arithmetic (underflow|overflow)|possible division by zero|index")
ALWAYS_C11 = re.compile(r"decreases|terminat")
LIMIT = 780  # seconds of the 900 this check may use
START = time.time()


def left(most, reserve=0):
    """seconds a step may take: most, or what is left"""
    return max(5, min(most, LIMIT - reserve - (time.time() - START)))


def sh(cmd, cwd=None, timeout=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")


class Run:
    """one overlay: extraction and verification"""

    def __init__(self, name, work):
        self.name, self.work = name, work
        self.skipped = {}      # function -> why the verifier cannot process it
        self.fatal = None      # the overlay as a whole cannot be processed
        self.failed = []       # obligations that are not discharged
        self.verified = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.info = {}
        self.probes = (0, 0)
        self.fns = []

    def vx(self, stem, probe=False):
        rs, js = os.path.join(self.work, stem + ".rs"), os.path.join(self.work, stem + ".json")
        for f in (rs, js):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [os.path.join(HERE, "vx/target/release/vx"), os.path.join(REPO, "src"), os.path.join(HERE, "overlays/prelude.rs"),
               os.path.join(HERE, "overlays", self.name + ".vx"), rs, js] + (["--probe"] if probe else [])
        for k in self.skipped:
            cmd += ["--skip", k]
        rc, _, err = sh(cmd, timeout=120, env={"VX_GEN": self.work})
        try:
            j = json.load(open(js))
        except Exception:
            j = {"fatal": "extraction failed: " + err[-400:]}
        return rs, j

    def verus(self, stem, extra=(), limit=300):
        cmd = ["verus", stem + ".rs", "--multiple-errors", "40", "--triggers-mode", "silent", "--output-json", "--time-expanded",
               "--error-format=json", "--num-threads", "4"] + list(extra)
        t = time.time()
        rc, out, err = sh(cmd, cwd=self.work, timeout=left(limit, 150), env={"RUSTUP_TOOLCHAIN": TOOLCHAIN})
        self.wall += time.time() - t
        self.cmd = "RUSTUP_TOOLCHAIN=%s %s" % (TOOLCHAIN, " ".join(cmd))
        if rc is None:
            return None, []
        try:
            res = json.loads(out)
        except Exception:
            res = {}
            i = out.find("{")
            try:
                res = json.JSONDecoder().raw_decode(out[i:])[0]
            except Exception:
                pass
        diags = []
        for l in err.split("\n"):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                    if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                        diags.append(d)
                except Exception:
                    pass
        return res, diags

    def fn_at(self, line):
        for f in self.info.get("functions", []):
            if f["from"] <= line <= f["to"]:
                return f
        return None

    def go(self):
        if self.name in GRAMMAR and not os.path.exists(os.path.join(self.work, "gram.vx")):
            self.fatal = "the published grammar cannot be read"
            return self
        for attempt in range(6):
            rs, self.info = self.vx(self.name)
            if "fatal" in self.info:
                self.fatal = self.info["fatal"]
                return self
            again = False
            for u in self.info["unsupported"]:
                k = u.split(": ")[0]
                k = next((f["key"] for f in self.info["functions"] if f["key"] == k), None)
                if k and k not in self.skipped:
                    self.skipped[k] = "not in the verifier's subset: " + u
                    again = True
            if again:
                continue
            self.lines = open(rs).read().split("\n")
            res, diags = self.verus(self.name)
            if res is None:
                self.fatal = "the verifier did not answer in time"
                return self
            vr = res.get("verification-results", {})
            self.verified, nerr = vr.get("verified", 0), vr.get("errors", 0)
            self.smt_ms = res.get("times-ms", {}).get("smt", {}).get("total", 0)
            if vr and not vr.get("encountered-error") and not vr.get("encountered-vir-error") and (self.verified or nerr):
                self.collect(diags)
                if self.failed:
                    self.retry()
                break
            if vr and self.verified:
                self.collect(diags)
                if self.failed:
                    self.retry()
                break
            # not processable: leave out the bodies the messages are about
            new = {}
            for d in diags:
                for s in d["spans"]:
                    f = self.fn_at(s["line_start"])
                    if f and not f["imported"] and f["key"] not in self.skipped:
                        new[f["key"]] = "not processable: " + d["message"]
            if not new:
                self.fatal = "not processable: " + "; ".join(d["message"] for d in diags)[:400]
                return self
            self.skipped.update(new)
        else:
            self.fatal = "not processable"
            return self
        self.fns = [f for f in self.info["functions"] if not f["imported"]]
        return self

    def collect(self, diags):
        self.failed = []
        for d in diags:
            spans = d["spans"] or [{"line_start": 0, "line_end": 0, "is_primary": True, "label": None}]
            for c in d.get("children", []):
                spans = spans + c.get("spans", [])
            tags, keys, clauses = set(), [], []
            # the narrowest tagged spans name the clause
            def tagged(s):
                return any(re.search(r"//#C\d\d", l) for l in self.lines[max(0, s["line_start"] - 1):s["line_end"]])
            ts = [s for s in spans if tagged(s)]
            if ts:
                least = min(s["line_end"] - s["line_start"] for s in ts)
                ts = [s for s in ts if s["line_end"] - s["line_start"] == least]
            for s in ts:
                for n in range(s["line_start"], s["line_end"] + 1):
                    if 0 < n <= len(self.lines):
                        m = re.search(r"//#(C\d\d(?:,C\d\d)*)\s*$", self.lines[n - 1])
                        if m:
                            tags |= set(m.group(1).split(","))
                            clauses.append(self.lines[n - 1].strip())
            prim = [s for s in spans if s.get("is_primary")] + spans
            f = None
            for s in prim:
                g = self.fn_at(s["line_start"])
                if g and not g["imported"]:
                    f = g
                    break
            inner = [s for s in spans if f and f["from"] <= s["line_start"] <= f["to"]]
            untagged = not tags
            if untagged and f:
                tags |= set(f["props"])
            if f and ALWAYS_C12.search(d["message"]) and self.name in PARSER:
                # a precondition that carries the tag of a property belongs to that property
                if untagged or "precondition" not in d["message"]:
                    tags.add("C12")
            if ALWAYS_C11.search(d["message"]):
                tags = {"C24"} if self.name in ("pegrd", "pegtop") else {"C11"} if self.name in PARSER + ["term", "gterm"] or not f else set(f["props"])
            self.failed.append({"overlay": self.name, "function": f["key"] if f else None, "file": f["file"] if f else None, "line": f["line"] if f else None,
                                "message": d["message"], "properties": sorted(tags), "clauses": clauses, "verifier_output": d.get("rendered", "")})

    def retry(self):
        """a failure that a larger budget removes was the solver giving up"""
        if left(200, 150) < 60:
            return
        res, diags = self.verus(self.name, ["--rlimit", "60"], limit=200)
        if not res:
            return
        vr = res.get("verification-results", {})
        if vr and vr.get("verified", 0) >= self.verified:
            self.verified = vr["verified"]
            self.collect(diags)

    def probe(self):
        """an assertion that cannot hold behind every precondition and loop invariant must fail"""
        if self.fatal or not self.fns:
            return
        rs, j = self.vx(self.name + "_probe", True)
        if "fatal" in j:
            return
        lines = open(rs).read().split("\n")
        want = {i + 1 for i, l in enumerate(lines) if "//#PROBE" in l}
        keep, w = self.info, self.wall
        # only the functions, where there are few and many lemmas
        names = [f["key"] for f in self.fns if re.fullmatch(r"\w+", f["key"])]
        only = [["--verify-root", "--verify-function", n] for n in names] if self.name in LEMMAS and len(names) < 3 else [[]]
        diags = sum((self.verus(self.name + "_probe", x)[1] for x in only), [])
        self.info = keep
        got = {s["line_start"] for d in diags for s in d["spans"]} & want
        self.probes = (len(want), len(got))


def grammar(work):
    """the published grammar, as the source has it now, as a specification (gram.vx)"""
    t, j, v = (os.path.join(work, "gram" + x) for x in (".txt", ".json", ".vx"))
    if sh([os.path.join(HERE, "vx/target/release/vx"), "--text", os.path.join(REPO, "src"), "peg_peg2code_text_peg2code", t])[0] != 0:
        return
    os.environ["VP_GRAMMAR"] = t
    rc, o, _ = sh([os.path.join(HERE, "replay/target/debug/replay"), "grammar", t])
    if rc == 0:
        open(j, "w").write(o)
        for x, kind in [("", []), ("2", ["sem", "shape", "term"]), ("4", ["term"])]:
            sh([sys.executable, os.path.join(HERE, "pegspec.py"), j, os.path.join(work, "gram%s.vx" % x)] + kind)


def contracts(seed, n):
    """samples the contracts the proofs take on trust on the operations themselves (not part of the proof)"""
    rc, o, err = sh([os.path.join(HERE, "replay/target/debug/replay"), "contracts", str(seed), str(n)], timeout=left(60))
    return (int(o), "") if rc == 0 and o.strip().isdigit() else (0, (o + err).strip()[-300:] or "no answer")


def build(dirname, profile):
    cmd = ["cargo", "build", "--offline"] + (["--release"] if profile == "release" else [])
    rc, _, err = sh(cmd, cwd=os.path.join(HERE, dirname), timeout=600)
    return None if rc == 0 else err[-1500:]


CHILDREN = []


def search1(prop, seed, secs, out):
    exe = os.path.join(HERE, "replay/target/debug/replay")
    p = subprocess.Popen([exe, "search", prop, str(seed), str(secs), out], env=dict(os.environ, VP_REPO=REPO), start_new_session=True,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    CHILDREN.append(p)
    try:
        o, err = p.communicate(timeout=max(10, min(secs + 150, LIMIT + 80 - (time.time() - START))))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, err = p.communicate()
    CHILDREN.remove(p)
    rc, o, err = p.returncode, o.decode(errors="replace"), err.decode(errors="replace")
    try:
        return json.loads(o.strip("\n").split("\n")[-1])
    except Exception:
        return {"found": False, "cases": 0, "distinct": 0, "others": {}, "samples": [], "wall_s": 0, "error": "%s %s %s" % (rc, o[-300:], err[-400:])}


def search(prop, seed, secs, out, pool):
    """several searches with seeds of their own, at the same time"""
    n = 4
    fs = [pool.submit(search1, prop, seed * 1000 + k, secs, "%s.%d" % (out, k)) for k in range(n)]
    while not all(f.done() for f in fs):
        time.sleep(0.1)
        if any(f.done() and f.result()["found"] for f in fs):
            time.sleep(1)
            for p in list(CHILDREN):
                try:
                    os.killpg(p.pid, 9)
                except Exception:
                    pass
    rs = [f.result() for f in fs]
    r = {"found": any(x["found"] for x in rs), "cases": sum(x["cases"] for x in rs), "distinct": sum(x["distinct"] for x in rs), "others": {},
         "samples": rs[0]["samples"], "wall_s": max(x["wall_s"] for x in rs), "seeds": n}
    for x in rs:
        for k, v in x["others"].items():
            r["others"][k] = r["others"].get(k, 0) + v
    best = None
    for k, x in enumerate(rs):
        f = "%s.%d" % (out, k)
        if x["found"] and os.path.exists(f):
            t = open(f).read()
            if best is None or len(t) < len(best):
                best = t
        for g in (f, f + ".journal", f + ".case"):
            if os.path.exists(g):
                os.unlink(g)
    if best:
        open(out, "w").write(best)
    if all("error" in x for x in rs):
        r["error"] = rs[0]["error"]
    return r


def trusted():
    """mechanical scan: everything the proofs assume"""
    out = []
    d = os.path.join(HERE, "overlays")
    for f in sorted(os.listdir(d)):
        prev = ""
        lines = open(os.path.join(d, f)).read().split("\n")
        for i, l in enumerate(lines):
            if re.search(r"external_body|\baxiom\b|\badmit\(|\bassume\(|assume_specification|uninterp ", l) and not l.strip().startswith("//"):
                body = " ".join(x.strip() for x in lines[i:i + 2])
                m = re.search(r"(fn|struct|enum) +(\w+)", body)
                t = re.search(r"impl.*? for +(\S+)", l)
                if m:
                    out.append("%s: %s%s" % (f, m.group(2), " for " + t.group(1) if t else ""))
    return sorted(set(out))


def known():
    ks = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m:
                ks.append((m.group(1), m.group(2)))
    return ks


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(HERE, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    pool = cf.ThreadPoolExecutor(12)
    b1, b2 = pool.submit(build, "vx", "release"), pool.submit(build, "replay", "debug")
    if b1.result():
        print("check: the extractor does not build:\n" + b1.result())
        return 2
    if GRAMMAR & set(OVERLAYS[prop]):
        b2.result()
        grammar(work)
    runs = list(pool.map(lambda n: Run(n, work).go(), OVERLAYS[prop]))
    if b2.result():
        print("check: the library or the searcher does not build:\n" + b2.result())
        return 2
    if not any(r.failed or r.fatal or r.skipped or r.info.get("lost") for r in runs):
        list(pool.map(lambda r: r.probe(), runs))
    # a failure decides only where the annotations fit the code and the solver gave an answer
    unfit = []
    for r in runs:
        lost = {l.split(": ")[0] for l in r.info.get("lost", [])}
        gone = any(l.endswith("not found") for l in lost)
        for f in r.failed:
            lemma = r.name in LEMMAS and f["function"] is None
            f["decided"] = not gone and f["function"] not in lost and "Resource limit" not in f["message"] and not lemma
            if lemma:
                unfit.append("%s: a lemma about the published grammar, as it stands now, is not proved: %s" % (r.name, f["message"]))
            elif not f["decided"] and not gone and f["function"] not in lost:
                unfit.append("%s: %s: the solver gave up" % (r.name, f["function"]))
    samples, refuted = contracts(seed, 2000 if tier == "quick" else 100000)
    if refuted:
        unfit.append("a trusted contract does not describe the operation: " + refuted)
    failed = [f for r in runs for f in r.failed if f["decided"]]
    own = [f for f in failed if prop in f["properties"]]
    rest = [f for f in failed if prop not in f["properties"]]
    undecided = sorted(set(unfit))
    for r in runs:
        if r.fatal:
            undecided.append("%s: %s" % (r.name, r.fatal))
        undecided += ["%s: %s: %s" % (r.name, k, w) for k, w in r.skipped.items()]
        undecided += ["%s: lost contract: %s" % (r.name, l) for l in r.info.get("lost", [])]
    vacuous = ["%s: %d of %d reachability probes did not fail" % (r.name, r.probes[0] - r.probes[1], r.probes[0]) for r in runs if not r.fatal and r.probes[0] != r.probes[1]]
    clean = not failed and not undecided and not vacuous
    case = os.path.join(work, "case.json")
    quiet = 10 if tier == "quick" else 240
    loud = int(left(90 if tier == "quick" else 300))
    s = search(prop, seed, quiet if clean else loud, case, pool)
    violation = None
    attributed = ""
    if s.get("error"):
        print("check: the searcher gave no answer: " + s["error"])
        return 2
    if s["found"]:
        v = json.load(open(case))
        v["failed_obligations"] = own
        v["undecided"] = undecided
        json.dump(v, open(case, "w"), indent=1)
        violation = case
        tail = ""
    elif own:
        if s["others"]:
            attributed = "the failing inputs found break only " + ", ".join(sorted(s["others"]))
        else:
            json.dump({"property": prop, "failed_obligations": own, "other_failed_obligations": rest, "undecided": undecided,
                       "search": {"cases": s["cases"], "wall_s": s["wall_s"]},
                       "replay": "the verifier gives no counterexample; re-run: python3 /verif/check.py " + prop}, open(case, "w"), indent=1)
            violation = case
            tail = " no-failing-input-found"
    # ------------------------------------------------------------- evidence
    fns = {}
    for r in runs:
        for f in r.fns:
            if f["key"] not in r.skipped:
                fns[f["key"]] = {"function": f["key"], "where": "%s:%s" % (f["file"], f["line"]), "loops": f["loops"], "inlined": f["inlined"], "desugared": f.get("desugared", []), "overlay": r.name}
    ob = sum(r.verified for r in runs) + len([f for r in runs for f in r.failed]) + len(undecided)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": ob,
            "discharged": sum(r.verified for r in runs),
            "obligations_by_overlay": {r.name: r.verified for r in runs},
            "obligation_unit": "one function, lemma, loop or specification item checked by Verus; each carries all its clauses",
            "failed_obligations": [{k: f[k] for k in ("overlay", "function", "message", "properties", "clauses")} for f in failed],
            "undecided": undecided,
            "attributed": attributed,
            "checker_cmd": "; ".join(getattr(r, "cmd", r.name) for r in runs),
            "back_end": "Verus 0.2026.09.13 with Z3",
            "smt_ms": sum(r.smt_ms for r in runs),
            "verifier_wall_s": round(sum(r.wall for r in runs), 2),
            "functions_under_contract": sorted(fns.values(), key=lambda f: f["where"]),
            "reachability_probes": {r.name: {"inserted": r.probes[0], "failed_as_required": r.probes[1]} for r in runs},
            "vacuous": vacuous,
            "trusted_base": trusted(),
            "trusted_base_sampled": {"samples": samples, "refuted": refuted, "note": "bounded: the standard library and idata operations tried against their contracts on sampled arguments; not part of the proof"},
            "dropped_by_extraction": sorted({json.dumps(d) for r in runs for d in r.info.get("dropped", [])})[:40],
            "search": {"evaluations": s["cases"], "distinct": s["distinct"], "wall_s": s["wall_s"], "samples": s["samples"], "broken_elsewhere": s["others"],
                       "note": "randomised search on the real library for inputs that show a violation; not part of the proof"},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for f in failed:
        print("obligation not discharged: %s in %s (%s) %s" % (f["message"], f["function"], ",".join(f["properties"]), " | ".join(f["clauses"])[:300]))
    for u in undecided + vacuous:
        print("undecided: " + u)
    if attributed:
        print("undecided: " + attributed)
    for k, w in known():
        if k == prop:
            print("KNOWN-FINDING: property=%s %s" % (k, w))
    if violation:
        print("VIOLATION property=%s replay=%s%s" % (prop, violation, tail))
        return 1
    print("%s: %d of %d obligations discharged, %d cases searched, %.0f s" % (prop, ev["coverage"]["discharged"], ob, s["cases"], ev["wall_s"]))
    return 0


ASSUMPTIONS = [
    "The contracts of the standard library and idata operations in overlays/prelude.rs (trusted_base) describe them correctly; a String, Vec or Chars clone equals its source.",
    "A &str is at most isize::MAX bytes long (axiom_str_len); the minimum of every repetition is at most isize::MAX (precondition rules_ok).",
    "The extraction (vx) preserves behaviour: macros expanded from their definitions, idata::tc::tail_call turned into the loop it is, iterator chains and ? turned into loops and matches, functions without a contract inlined into their callers, derives replaced by structural equality and clone.",
    "The stack is deep enough and memory does not run out; outside C11 and C24 parser functions are verified for partial correctness (that parsing ends is C11, that reading PEG text ends is C24).",
    "Verus, Z3 and rustc are correct.",
]

if __name__ == "__main__":
    sys.exit(main())
