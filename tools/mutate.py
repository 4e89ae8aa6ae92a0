#!/usr/bin/env python3
"""Mutation sweep: how much of what the code does do the replayed behaviours notice?
usage: mutate.py cases | list | run WORKERS [max] [file-substring]
Works only in scratch copies under /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
V = os.environ.get("MUT_VERIF", "/verif")
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
M = "/tmp/mut"
PRI = [("adaptation/sector_index", ["C03"]), ("adaptation/sectors", ["C04", "C05", "C06"]), ("adaptation/locations/airways", ["C01", "C02"]), ("adaptation/locations/mod", ["C13", "C14", "C15"]),
       ("adaptation/colours", ["C17", "C31"]), ("adaptation/line_styles", ["C19"]), ("adaptation/symbols", ["C18"]), ("adaptation/sct_items", ["C16", "C17"]),
       ("adaptation/maps/active", ["C22"]), ("adaptation/maps/mod", ["C20", "C21"]), ("topsky/map/active", ["C22"]), ("topsky/map", ["C20", "C21"]), ("topsky/symbol", ["C18"]),
       ("topsky/settings", ["C31"]), ("topsky/mod", ["C32", "C18"]), ("settings/track", ["C31"]), ("settings/mod", ["C24", "C31", "C26"]), ("adaptation/icao", ["C28"]), ("adaptation/constraints", ["C23"]),
       ("adaptation/mod", ["C26", "C27", "C32"]), ("airway", ["C01", "C02"]), ("asr", ["C29"]), ("ese", ["C07", "C08", "C06", "C23"]), ("icao", ["C28"]), ("isec", ["C28"]),
       ("navdata", ["C28"]), ("prf", ["C27"]), ("sct", ["C09", "C10", "C11", "C17"]), ("squawks", ["C25"]), ("symbology", ["C18", "C31"]), ("symbol_rule", ["C18"]), ("topsky", ["C20", "C22", "C18", "C19"]), ("lib", ["C12", "C09"])]

def cases():
    from checks import CHECKS
    import run
    import concurrent.futures as cf
    d = M + "/cases"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = M + "/tw"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    todo = [(i, k, j) for i in sorted(CHECKS) for k, j in enumerate(CHECKS[i]["jobs"]("quick"))]
    def one(t):
        i, k, j = t
        ww = "%s/%s-%d" % (w, i, k); os.makedirs(ww)
        r = run.run_tlc(j, k, ww, 800)
        shutil.move(r["cases"], "%s/%s.%d.%s" % (d, i, k, r["domain"]))
        shutil.rmtree(ww)
        print(i, k, r["n"], flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_J", "6"))) as ex: list(ex.map(one, todo))

def code_lines(p):
    L = open(p).read().split("\n")
    for n, l in enumerate(L):
        if "#[cfg(test)]" in l: return L, n
    return L, len(L)

SUBS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?=\s)", "&&"), (r" \+ ", " - "), (r" - ", " + "),
        (r" \* ", " / "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.rev\(\)", ""), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.is_some_and\(", ".is_none_or("),
        (r"\.sorted_by_key\(", ".sorted_by_key(|_| 0).sorted_by_key("), (r"\.to_uppercase\(\)", ".to_string()"), (r"\.to_ascii_uppercase\(\)", ".to_string()"), (r"\.to_lowercase\(\)", ".to_string()"),
        (r"\.trim\(\)", ""), (r"\.dedup\(\)", ".len()"), (r"\.or_else\(\|\| ", ".or_else(|| None).or_else(|| "), (r"\.filter\(", ".filter(|_| true).filter("), (r"\bSome\((\w+)\)(?! =)", "None"),
        (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"!(?=[a-z])", ""), (r"\.x\(\)", ".y()"), (r"\.next\(\)", ".last()"), (r"\.next\(\)", ".nth(1)"), (r"\.find\(", ".filter(|_| false).find("), (r"\.chain\(.*\)$", ""),
        (r"\.insert\(", ".entry("), (r"\.swap_remove\(", ".get("), (r"\.take\(\)", ".clone()"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"\.skip\((\d+)\)", ".skip(0)"), (r"\.starts_with\(", ".ends_with("), (r"\.end\b", ".start"), (r"\.start\b", ".end")]

def mutants():
    R = "/repo/src"
    out = []
    for root, _, fs in os.walk(R):
        for f in sorted(fs):
            p = os.path.join(root, f); rel = os.path.relpath(p, R)
            if rel == "adaptation/icao.rs" and 0: continue
            L, end = code_lines(p)
            pest = f.endswith(".pest")
            for n in range(end):
                l = L[n]; s = l.strip()
                if not s or s.startswith(("//", "#[", "use ", "pub mod", "mod ", "@", "warn!(", "error!(", "trace!(", "debug!(")) and not pest: continue
                if s.startswith("//") or "#[error" in s: continue
                if pest:
                    for m in re.finditer(r"(?<=[\w)\"])[?*+](?= |$|\))", l):
                        c = m.group(0)
                        for o in "?*+":
                            if o != c: out.append((rel, n, l[:m.start()] + o + l[m.end():], c + "->" + o))
                        out.append((rel, n, l[:m.start()] + l[m.end():], c + "->"))
                    for m in re.finditer(r"\^\"", l): out.append((rel, n, l[:m.start()] + l[m.start() + 1:], "^->"))
                    for m in re.finditer(r"= _?\{|= [@$_]\{", l):
                        k = l[m.start() + 2:m.end()]
                        for o in ("{", "@{", "${"):
                            if o != k: out.append((rel, n, l[:m.start() + 2] + o + l[m.end():], k + "->" + o))
                    if "|" in l:
                        q = l.split(" | ")
                        for i in range(len(q)):
                            if len(q) > 1 and 0 < i < len(q) - 1: out.append((rel, n, " | ".join(q[:i] + q[i + 1:]), "drop alt"))
                            if i and " = " not in q[i]: 
                                if i < len(q) - 1:
                                    r = q[:]; r[i], r[i - 1] = r[i - 1], r[i]
                                    if i - 1 > 0: out.append((rel, n, " | ".join(r), "swap alt"))
                    for m in re.finditer(r"\{(\d+)(, ?(\d+))?\}", l):
                        a = int(m.group(1)); b = m.group(3)
                        if b: 
                            out.append((rel, n, l[:m.start()] + "{%d, %s}" % (a + 1, b) + l[m.end():], "min+1"))
                            if int(b) > a: out.append((rel, n, l[:m.start()] + "{%d, %d}" % (a, int(b) - 1) + l[m.end():], "max-1"))
                            out.append((rel, n, l[:m.start()] + "{%d, %d}" % (a, int(b) + 1) + l[m.end():], "max+1"))
                        else: out.append((rel, n, l[:m.start()] + "{%d}" % (a + 1) + l[m.end():], "n+1"))
                    continue
                for pat, rep in SUBS:
                    for m in re.finditer(pat, l):
                        nl = l[:m.start()] + rep + l[m.end():]
                        if nl != l: out.append((rel, n, nl, "%s->%s" % (m.group(0), rep)))
                for m in re.finditer(r"(?<![\w.\"#])(\d+)(?![\w\"])", l):
                    out.append((rel, n, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "int+1"))
                for m in re.finditer(r"(?<![\w.\"#])(\d+\.\d*)(?![\w\"])", l):
                    out.append((rel, n, l[:m.start()] + "(%s + 1.0)" % m.group(1) + l[m.end():], "flt+1"))
                if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "type", "const", "use", "pub", "static", ".")) and "=>" not in s:
                    out.append((rel, n, "", "delete stmt"))
                m = re.match(r"(\s*)if (.*) \{$", l)
                if m and "let " not in l:
                    out.append((rel, n, m.group(1) + "if true || (%s) {" % m.group(2), "if true")); out.append((rel, n, m.group(1) + "if false && (%s) {" % m.group(2), "if false"))
                # field given from another field
                m = re.match(r"(\s*)(\w+): (.*),$", l)
                if m and n + 1 < end:
                    m2 = re.match(r"(\s*)(\w+): (.*),$", L[n + 1])
                    if m2 and m.group(1) == m2.group(1) and "pub " not in l and not re.match(r"^[A-Z&]", m.group(3)):
                        out.append((rel, n, m.group(1) + m.group(2) + ": " + m2.group(3) + ".clone(),", "field from next")) 
                # literal strings
                for m in re.finditer(r"\"([A-Za-z_ ]{2,})\"", l):
                    if "expect(" not in l and "unreachable" not in l and "Regex" not in l:
                        out.append((rel, n, l[:m.start() + 1] + "X" + l[m.start() + 1:], "string"))
    seen = set(); u = []
    for o in out:
        k = (o[0], o[1], o[2])
        if k not in seen: seen.add(k); u.append(o)
    return u

def sh(cmd, t=600, **k):
    try: return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace", **k)
    except subprocess.TimeoutExpired: return None

def worker(w, q, res, lock):
    d = "%s/w%d" % (M, w)
    if not os.path.isdir(d):
        os.makedirs(d)
        sh("cp -a /repo %s/repo; cp -a %s/harness %s/harness; cp -a /verif/target %s/target; sed -i 's|path = \"/repo\"|path = \"%s/repo\"|' %s/harness/Cargo.toml" % (d, V, d, d, d, d))
    else:
        sh("git -C %s/repo checkout -q -- .; rsync -a %s/harness/src/ %s/harness/src/ || cp -a %s/harness/src/. %s/harness/src/" % (d, V, d, V, d))
    shm = "/dev/shm/mut%d" % w; os.makedirs(shm, exist_ok=True)
    env = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target CARGO_INCREMENTAL=1; " % d
    files = sorted(os.listdir(M + "/cases"))
    while True:
        try: mu = q.get_nowait()
        except queue.Empty: return
        rel, n, new, what = mu
        p = "%s/repo/src/%s" % (d, rel)
        orig = open(p).read(); L = orig.split("\n"); old = L[n]; L[n] = new
        open(p, "w").write("\n".join(L))
        t0 = time.time(); st = "?"; det = ""
        b = sh(env + "cargo build --offline --manifest-path %s/harness/Cargo.toml 2>&1 | tail -40; exit ${PIPESTATUS[0]}" % d, executable="/bin/bash")
        if b is None or b.returncode: st = "nocompile"; det = "" if b is None else "\n".join(x for x in b.stdout.split("\n") if x.startswith("error"))[:200]
        else:
            pri = next((i for k, i in PRI if k in rel), [])
            order = sorted(files, key=lambda f: (f[:3] not in pri, pri.index(f[:3]) if f[:3] in pri else 0, f[:3] in ("C30", "C26"), f))
            st = "SURVIVED"; tested = False
            for f in order + [""]:
                if not tested and f[:3] not in pri:
                    tested = True
                    t = sh(". /opt/vp/env.sh; cd %s/repo; CARGO_TARGET_DIR=%s/ttarget timeout 500 cargo test --offline --locked --lib 2>&1 | grep -E '^test .*FAILED|^test result|^error' | head" % (d, d), executable="/bin/bash")
                    if t is None or "test result: ok" not in t.stdout: st = "tests kill"; break
                if not f: break
                i, k, dom = f.split(".")
                r = sh("cd %s; VP_MAXBAD=1 VERIF_SEED=1 VP_SCRATCH=%s VP_VERIF=%s RUST_BACKTRACE=0 timeout 400 %s/target/debug/vp-harness %s %s/cases/%s 2>/dev/null | cut -c1-3000; exit ${PIPESTATUS[0]}" % (shm, shm, V, d, dom, M, f), executable="/bin/bash")
                if r is None or r.returncode: st = "killed " + i; det = "rc %s" % (r and r.returncode); break
                m = re.search(r'"bad":\[(.*)', r.stdout)
                if m and not m.group(1).startswith("]"):
                    a = re.search(r'"at":"([^"]*)"', r.stdout); st = "killed " + i; det = a.group(1) if a else r.stdout[:200]; break
        open(p, "w").write(orig)
        with lock:
            res.write(json.dumps(dict(file=rel, line=n + 1, old=old.strip(), new=new.strip(), what=what, st=st, det=det, t=round(time.time() - t0, 1))) + "\n"); res.flush()

if __name__ == "__main__":
    if sys.argv[1] == "cases": cases()
    elif sys.argv[1] == "list":
        u = mutants(); print(len(u)); from collections import Counter
        print(Counter(x[0] for x in u)); print(Counter(x[3] for x in u).most_common(60))
    else:
        W = int(sys.argv[2]); mx = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
        sub = sys.argv[4] if len(sys.argv) > 4 else ""
        u = [x for x in mutants() if sub in x[0]]
        rf = M + "/results.jsonl"; done = set()
        if os.path.exists(rf):
            for l in open(rf):
                j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
        u = [x for x in u if (x[0], x[1] + 1, x[2].strip()) not in done]
        random.Random(7).shuffle(u)
        # tables of built-in values are one thing each, not hundreds
        tab = [x for x in u if re.search(r"\(\(?\d+, ?\d+|Colour\(|from_rgb|\d, \d", x[2]) and x[3] in ("int+1", "flt+1", "string")]
        u = [x for x in u if x not in set(tab[30:])]
        cap = {}; v = []
        for x in u:
            cap[x[0]] = cap.get(x[0], 0) + 1
            if cap[x[0]] <= 110: v.append(x)
        u = v[:mx]
        q = queue.Queue(); [q.put(x) for x in u]
        print(len(u), "mutants", flush=True)
        lock = threading.Lock(); res = open(rf, "a")
        ts = [threading.Thread(target=worker, args=(w, q, res, lock)) for w in range(W)]
        [t.start() for t in ts]; [t.join() for t in ts]
