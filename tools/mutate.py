"""python3-vt tools/mutate.py OUT.jsonl N workers group...
Mutation testing of the checks (not of the code): text mutants of /repo's sources in scratch copies /tmp/mw/K; every check
whose rule reads the mutated file runs; survivors are listed for inspection. group = file stem, or stem:PID,PID."""
import json, multiprocessing as mp, os, random, re, subprocess, sys, time, zlib

OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "), (r" < ", " <= "),
       (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(m])", ""), (r"= -", "= "), (r"\bLeft\b", "Right"), (r"\bRight\b", "Left"),
       (r"left", "right"), (r"right", "left"), (r"Left", "Right"), (r"Right", "Left"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"Min", "Max"), (r"Max", "Min"),
       (r"\bx\b", "y"), (r"(?<=[(\[, ])0(?=[)\], ;])", "1"), (r"(?<=[(\[, ])1(?=[)\], ;])", "2"), (r"(?<=[(\[, ])2(?=[)\], ;])", "1"),
       (r"(?<=[(\[, ])3(?=[)\], ;])", "2"), (r"\b2\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"), (r"\b0\.5\b", "0.25"),
       (r"\(([a-z]\w*), ([a-z]\w*)\)", r"(\2, \1)"), (r"\.transpose\(\)", ""), (r"\.inverse\(\)", ""), (r"cos\(", "sin("), (r"sin\(", "cos("),
       (r"\btopRows\b", "bottomRows"), (r"\bleftCols\b", "rightCols"), (r"lower", "upper"), (r"upper", "lower"), (r"Lower", "Upper"), (r"Upper", "Lower"),
       (r"\+\+(?=\w)", "--"), (r"state", "control"), (r"control", "state"), (r"begin\(\)", "end()"), (r"front\(\)", "back()"), (r"back\(\)", "front()"),
       (r"Velocity", "Position"), (r"Position", "Velocity"), (r"force", "velocity"), (r"Force", "Velocity")]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|assert|using|namespace|public|private|typedef|friend)|std::cerr|std::cout|assert\(|UNUSED|errorMessage|<<|reserve\(")


def mutants(src):
    L = src.split("\n")
    out = []
    for i, l in enumerate(L):
        if not l.strip() or SKIP.search(l):
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', l.split("//")[0])
        for a, b in OPS:
            for m in re.finditer(a, code):
                r = m.expand(b) if "\\" in b else b
                out.append((i, l[:m.start()] + r + l[m.end():]))
        s = code.strip()
        if s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("return", "}", "class", "struct", "break", "case", "continue", "typedef")) \
                and re.match(r"^[\w\->.\[\]:()&* ]+(\(|[-+*/]?=[^=]|\+\+)", s) and not re.match(r"^(const |static |bool|int|double|size_t|unsigned|std::|iDynTree::|Eigen::|auto|[A-Z]\w*[ <&])[^=(]*[ &]\w+ ?(=|;|\()", s):
            out.append((i, re.match(r"\s*", l).group(0) + ";"))
        if s == "return false;":
            out.append((i, l.replace("return false;", ";")))
    return [x for x in out if x[1] != L[x[0]]]


def child(repo, units, pids, stem, q):
    os.environ["DPA_REPO"] = repo
    os.environ["DPA_CACHE"] = repo + "-cache"
    sys.setrecursionlimit(20000)
    sys.path.insert(0, "/verif")
    import importlib, contextlib, io
    from dpa.rules import registry
    from dpa import check, frontend
    und = []
    t0 = time.time()
    try:
        for pid in pids:
            mod = importlib.import_module("dpa.rules." + registry.RULES[pid]["module"])
            from dpa.program import Program
            ex = getattr(mod, "EXTRA", None)
            us = getattr(mod, "UNITS", None) or [u for u in frontend.all_units() if u != "levi"] + (ex or [])
            P = Program(us)
            bad = [n for n in getattr(P, "broken", [])]
            if bad or getattr(P, "errors", 0):
                und.append("extraction errors")
            check.CTX.update(P=P, tier="quick")
            ts = mod.tasks(P, pid, "quick")
            if registry.RULES[pid]["module"] in ("evaluables", "values") and stem.endswith(("Cost", "Constraint", "Constraints")):
                ts = [t for t in ts if stem in repr(t[1]) or not t[1]]
            elif pid == "C11":
                k = [t for t in ts if stem in repr(t[1])] or ts
                rnd = random.Random(1); rnd.shuffle(k); ts = k[:40]
            for t in ts:
                k, x, r = check._run(t)
                d = x if k == "ok" else r
                if d["viol"]:
                    q.put(("killed", pid, d["viol"][0]["what"][:200], time.time() - t0)); return
                if k != "ok":
                    und.append(pid + " " + x[:160])
                und += [pid + " " + str(u)[:160] for u in d["und"]]
    except frontend.AnalysisBroken as e:
        q.put(("broken", "", str(e)[:300], time.time() - t0)); return
    except Exception as e:
        q.put(("crash", "", repr(e)[:300], time.time() - t0)); return
    q.put(("undecided" if und else "SURVIVED", "", und[:3], time.time() - t0))


def drv(repo):
    from dpa import frontend
    p = repo + "/levi_driver.cpp"
    open(p, "w").write(frontend.LEVI_DRIVER)
    return p


def worker(k, inq, outq):
    repo = "/tmp/mw/%d" % k
    while True:
        j = inq.get()
        if j is None:
            return
        f, line, new, pids = j
        p = os.path.join(repo, f)
        old = open(p).read()
        L = old.split("\n")
        prev = L[line]
        L[line] = new
        open(p, "w").write("\n".join(L))
        # must compile
        st = None
        q = mp.Queue()
        c = mp.Process(target=child, args=(repo, None, pids, os.path.splitext(os.path.basename(f))[0], q))
        c.start()
        try:
            st = q.get(timeout=900)
        except Exception:
            st = ("timeout", "", "", 900)
        c.join(5)
        if c.is_alive():
            c.kill()
        if st[0] in ("undecided", "SURVIVED", "crash", "broken") and not f.endswith("Logger.cpp"):
            r = subprocess.run(["g++", "-fsyntax-only", "-w", "-std=gnu++17", "-DNDEBUG", "-DDynamicalPlanner_EXPORTS", "-I" + repo + "/include", "-I/usr/include/eigen3", "-I" + repo + "/extern/levi/include",
                                "-I" + repo + "/extern/levi/deps/zupply/include", "-I" + repo + "/extern/levi/deps/sharedlibpp/src", "-isystem", "/opt/vp/deps/idyntree/include", "-include", "cstdint", p if p.endswith(".cpp") else drv(repo)], capture_output=True)
            if r.returncode:
                st = ("nocompile",) + tuple(st[1:])
        open(p, "w").write(old)
        outq.put((f, line + 1, prev.strip(), new.strip(), st))


def main():
    out, n, nw = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sys.path.insert(0, "/verif")
    from dpa.rules import registry
    os.makedirs("/tmp/mw", exist_ok=True)
    for k in range(nw):
        subprocess.run("mkdir -p /tmp/mw/%d && rsync -a --delete --exclude .git --exclude _build /repo/ /tmp/mw/%d/ 2>/dev/null || (rm -rf /tmp/mw/%d && mkdir /tmp/mw/%d && cd /repo && git archive HEAD | tar x -C /tmp/mw/%d && cp -a extern /tmp/mw/%d/)" % (k, k, k, k, k, k), shell=True, check=True)
        if os.environ.get("MPRE"):
            subprocess.run(os.environ["MPRE"], shell=True, check=True, cwd="/tmp/mw/%d" % k)
    seed = os.environ.get("MSEED", "")
    jobs = []
    for g in sys.argv[4:]:
        stem, _, ps = g.partition(":")
        f = [x for x in ("src/%s.cpp" % stem, "src/private/%s.cpp" % stem, "extern/levi/include/levi/%s.h" % stem) if os.path.exists("/repo/" + x)][0]
        pids = ps.split(",") if ps else [p for p, r in registry.RULES.items() if f in r["files"]]
        order = "C06 C02 C03 C04 C05 C07 C01".split()
        pids.sort(key=lambda p: order.index(p) if p in order else 9)
        ms = mutants(open("/repo/" + f).read())
        r = random.Random(zlib.crc32((stem + seed).encode()))
        r.shuffle(ms)
        jobs += [(f, i, new, pids) for i, new in ms[:n]]
    random.Random(5).shuffle(jobs)
    inq, outq = mp.Queue(), mp.Queue()
    for j in jobs:
        inq.put(j)
    for k in range(nw):
        inq.put(None)
    ws = [mp.Process(target=worker, args=(k, inq, outq)) for k in range(nw)]
    for w in ws:
        w.start()
    cnt = {}
    with open(out, "a") as o:
        for i in range(len(jobs)):
            x = outq.get()
            cnt[x[4][0]] = cnt.get(x[4][0], 0) + 1
            o.write(json.dumps(x) + "\n")
            o.flush()
            print(i + 1, len(jobs), cnt, flush=True)


main()
