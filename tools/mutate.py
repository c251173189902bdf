#!/usr/bin/env python3
# Mutation runs: makes small changes to the sources in a scratch copy, keeps those that build and pass the stable
# tests, and runs the checks anchored at the file. Survivors are either equivalent or a gap in the checks.
#   mutate.py WORKER NWORKERS OUT.jsonl [files...]     (PLANT_REPO: the scratch copy; run from a clone of /verif)
import sys, os, re, json, random, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant as P
W, NW, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; only = sys.argv[4:]
PER = int(os.environ.get("PER", "40")); SEED = int(os.environ.get("MSEED", "1"))
MAP = {}
for l in open(P.V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]: MAP.setdefault(f, []).append(p["id"])
COST = {"C21": 100, "C22": 90, "C08": 50, "C12": 60, "C15": 45, "C14": 35, "C26": 36, "C11": 27, "C01": 26, "C20": 27, "C09": 20, "C25": 20, "C27": 60, "C23": 25}
SUB = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\+\+", "--"), (r"--", "++"), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bbegin\b", "end"), (r"\bend\b", "begin"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b([2-9]|\d\d+)\b", lambda m: str(int(m[1])+1)), (r"\b([2-9]|\d\d+)\b", lambda m: str(int(m[1])-1)),
    (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r" >> ", " << "), (r"if \(", "if (!"), (r"!(?=[\w(])", ""), (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bsize_t\b", "uint16_t"), (r"\bsize_type\b", "uint8_t"), (r"\buoff_t\b", "uint8_t"), (r"\bsize\(\)", "size()-1"), (r"\bsize\(\)", "capacity()"), (r"\bn\b", "(n+1)"), (r"\bn\b", "(n-1)"), (r"~", ""), (r" \? ", " ? 0*"), (r"\bunsigned\b", "int"), (r"\bforward<Args>\(args\)", "args"), (r"\bmove \(", "("), (r"lower", "upper"), (r"upper", "lower")]
# MMODE=narrow: types that are too narrow for long ranges, far positions and extreme values
LEN = r"\b(size_t|uoff_t|size_type|streamsize|difference_type|ptrdiff_t|off_t|pos_type|written_size_type)\b"
NARROW = [(LEN, "uint16_t"), (LEN, "uint8_t"), (LEN, "uint32_t"), (r"(?<![\w.>])size ?\(\)(?= *[\-+*/<>=,;)])", "uint16_t(size())"), (r"\bdistance ?\(([^()]*)\)", r"uint16_t(distance (\1))"),
    (r"\bwchar_t\b", "uint16_t"), (r"\buint32_t\b", "uint16_t"), (r"\buint64_t\b", "uint32_t"), (r"\bdouble\b", "float"), (r"\blong\b", "int"), (r"\bunsigned\b(?! (char|short|int|long))", "uint8_t"),
    (r"\bint\b", "short"), (r"\bint\b", "int8_t"), (r"\buint8_t\b", "char"), (r"\bunsigned char\b", "char"), (r"\bintmax_t\b", "int"), (r"\btime_t\b", "int"), (r"\bvalue_type\b", "uint16_t")]
if os.environ.get("MMODE") == "narrow": SUB = NARROW
def orig_lines(f):
    return set(int(l.split("\t")[0] or 0) for l in [re.sub(r"^\^?\w+\s+(\d+)\).*", r"\1", x) for x in subprocess.run("git -C %s blame -s HEAD -- %s" % (P.R, f), shell=True, capture_output=True).stdout.decode("latin1").split("\n") if x.startswith("^")])
def mutants(f, text):
    lines = text.split("\n"); out = []; cond = False; narrow = SUB is NARROW; orig = orig_lines(f) if narrow else None
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "template", "typedef", "using", "assert", "static_assert")) or ("asm" in s): continue
        if narrow and i+1 not in orig: continue
        code = l.split("//")[0]
        for k, (a, b) in enumerate(SUB):
            for m in re.finditer(a, code):
                r = b(m) if callable(b) else m.expand(b) if "\\" in b else b
                if m[0] in (" < ", " > ") and "template" in code: continue
                if narrow and ("::" + m[0] in code or m[0] + "::" in code): continue
                out.append((i, code[:m.start()] + r + code[m.end():], "%d: %s -> %s" % (i+1, m[0].strip(), r.strip())))
        if narrow: continue
        if re.match(r"^\s+[\w:>.*\-]+ ?(\(.*\)|[+\-]?= .*);$", code) and not re.match(r"^\s+(return|throw)", code): out.append((i, "", "%d: deleted" % (i+1)))
        m = re.match(r"^(.*\{ )([^{};]+; )(.*\})\s*$", code)
        if m and not m[2].startswith("return"): out.append((i, m[1] + m[3], "%d: deleted first statement" % (i+1)))
    return lines, out
P.setup()
fs = sorted(f for f in MAP if (not only or f in only) and os.path.exists(P.R + "/" + f))
work = []
for f in fs:
    text = open(P.R + "/" + f, encoding="latin1").read(); lines, ms = mutants(f, text)
    rnd = random.Random("%s %d" % (f, SEED)); rnd.shuffle(ms); work += [(f, m) for m in ms[:PER]]
random.Random(SEED).shuffle(work); work = work[W::NW]
log = open(OUT, "a")
seen = set()
if os.path.exists(OUT):
    for l in open(OUT):
        try: r = json.loads(l); seen.add((r["file"], r["what"], r["new"]))
        except Exception: pass
for f, (i, new, what) in work:
    if (f, what, new.strip()) in seen: continue
    P.clean(); p = P.R + "/" + f; lines = open(p, encoding="latin1").read().split("\n"); old = lines[i]; lines[i] = new
    open(p, "w", encoding="latin1").write("\n".join(lines)); t = time.time()
    rec = {"file": f, "what": what, "old": old.strip(), "new": new.strip()}
    try:
        r = subprocess.run("timeout 120 bash %s.vp/build.sh" % P.R, shell=True, capture_output=True)
        if r.returncode: rec["res"] = "build"
        else:
            subprocess.run("ulimit -f 100000 -v 8000000; timeout 60 bash %s.vp/test.sh %s.vp/out.json" % (P.R, P.R), shell=True, capture_output=True)
            try: passed = json.load(open(P.R + ".vp/out.json"))["passed"]
            except Exception: passed = []
            if set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(passed): rec["res"] = "tests"
            else:
                rec["res"] = "SURVIVED"; rec["by"] = []
                for c in sorted(MAP[f], key=lambda c: COST.get(c, 8)):
                    mod = c == "C27"
                    r = subprocess.run("ulimit -f 2000000; VERIF_REPO=%s VERIF_SEED=%d VERIF_TIER=quick timeout 700 python3 %s/check.py %s %s" % (P.R, SEED, P.V, c, "" if mod else "--flavor asan --maxsec 8" if c != "C23" else "--maxsec 8"), shell=True, capture_output=True, text=True, errors="replace")
                    rec["by"].append("%s:%d" % (c, r.returncode))
                    if r.returncode == 1: rec["res"] = "caught"; rec["how"] = next((x for x in r.stdout.splitlines() if x.startswith("# ")), "")[:160]; break
                    if r.returncode == 2 and "tests without cases" not in r.stdout + r.stderr: rec["res"] = "error"; rec["how"] = (r.stdout + r.stderr)[-300:]; break
    except Exception as e: rec["res"] = "exc"; rec["how"] = str(e)
    rec["t"] = round(time.time() - t, 1); log.write(json.dumps(rec) + "\n"); log.flush()
P.clean()
