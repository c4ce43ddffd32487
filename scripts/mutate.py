#!/usr/bin/env python3
"""mutate.py WORKER SEED COUNT FILE...: mutation test of the checks (development aid).
Makes small random changes to the given files of a scratch clone of /repo, runs the checks responsible for the changed
place from a scratch copy of /verif, and prints which check reported the change or that it survived."""
import sys, os, re, random, subprocess, shutil, time
W, SEED, N, FILES = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/t/mut/" + W
if not os.path.exists(D + "/r"):
    os.makedirs(D); subprocess.check_call(["git", "clone", "-q", "/repo", D + "/r"]); subprocess.check_call("git clone -q %s %s/v" % (V, D), shell=True)
subprocess.call("git -C %s/r fetch -q && git -C %s/r reset -q --hard origin/HEAD; rsync -a --exclude=.git --exclude=build --exclude=evidence --exclude=replays --exclude=seeded %s/ %s/v/" % (D, D, V, D), shell=True)
R = D + "/r/"
def rules(f, fn):
    b = os.path.basename(f)
    if b.startswith("Point.hh"): return ["G07"]
    if b == "Geometry.cc":
        return ["G01", "M04"] if "polyhed_get" in fn else ["G03", "S03"] if "point_in" in fn else ["G08"] if "segment" in fn or "face1d" in fn else ["G02", "G01", "G03"]
    if "Region" in b: return ["G05", "G04", "S04"]
    if b.startswith(("GeometricModel", "Domain")): return ["G06"]
    if b.startswith("block_part"): return ["T01", "T02"]
    if b.startswith("MeshSet"): return ["S02", "S01", "S05", "S03", "V04"]
    if b.startswith("MeshTile"): return ["T03", "T02", "S05"]
    if b.startswith("MeshFactory"): return ["F01"]
    if b.startswith("MeshDefs"): return ["M11"]
    if b.startswith(("errors", "exceptions")): return ["F02"]
    if b.startswith("Mesh_simple"): return ["M02", "M01", "M10", "F01", "M12", "M03", "M05", "M09", "T03"]
    if b.startswith("JaliState"): return ["V01", "V02", "V03", "V04", "V05"]
    n = fn.lower()
    if re.search("meshset|region|set_|sets|setname", n): return ["S05", "S03", "S06", "S04", "S02", "V03"]
    if re.search("partition|tile", n): return ["T02", "T03", "F01"]
    if re.search("side|wedge|corner", n): return ["M06", "M07", "M08", "M09", "M05", "T03"]
    if "edge" in n: return ["M12", "M06", "M04", "M05"]
    if re.search("geometr|volume|centroid|normal|coord|length|area", n): return ["M04", "M03", "M05", "M07", "M02"]
    if re.search("point", n): return ["S03", "G03"]
    return ["M10", "M09", "M01", "M03", "M06", "T03", "S03", "M12"]
SUB = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<(?![<=])(?= )", "<="), (r"(?<![>\-])>(?![>=])(?= )", ">="), (r"<=", "<"), (r">=", ">"), (r"\+\s*1\b", ""), (r"-\s*1\b", ""),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ", " - "), (r"(?<=\w) ?- ?(?=\w)", " + "), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"),
       (r"PARALLEL_OWNED", "ALL"), (r"Entity_type::ALL", "Entity_type::PARALLEL_OWNED"), (r"PARALLEL_GHOST", "PARALLEL_OWNED"), (r"BOUNDARY_GHOST", "PARALLEL_GHOST"), (r"!(?=[a-z])", ""), (r"\+=", "-="), (r"\b0\b(?!\.)", "1"), (r"\b2\b(?!\.)", "3"), (r"(?<![\w.])-(?=[0-9a-z(])", ""),
       (r"(?<=\w)\*(?=\w)", "+"), (r"\b0\.5\b", "0.25"), (r"\bi\b", "j"), (r"\bnx_\b", "ny_"), (r"\bny_\b", "nz_"), (r"\*(?=\w)", "/")]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|using|namespace|class|typedef|template|public|private|virtual|assert|std::cerr|std::cout|Errors|Exceptions|mesg|case .*:$|\}|\{|$)|static_assert|std::stringstream|\.add_data|<<|\?\?\?")
def functions(lines):
    fn, out = "", []
    for l in lines:
        m = re.match(r"^[A-Za-z_].*?([\w:~]+)\s*\((?!.*;\s*$)", l) or re.match(r"^  (?! )[A-Za-z_][\w:<>,&* ]*?\b(\w+)\s*\((?!.*;\s*$)", l)
        if m and not re.match(r"\s*(if|for|while|else|return|switch)\b", l): fn = m.group(1)
        out.append(fn)
    return out
rnd = random.Random(SEED)
cand = []
for f in FILES:
    L = open(R + f).read().split("\n")
    F = functions(L)
    com = False; skipm = 0
    for i, l in enumerate(L):
        if "/*" in l: com = True
        if com:
            if "*/" in l: com = False
            continue
        if re.match(r"#if(def)? .*(MSTK|ZOLTAN|STK|MOAB|_DEBUG|DEBUG)", l): skipm = 1
        if l.startswith(("#endif", "#else")): skipm = 0
        if skipm or SKIP.search(l): continue
        code = l.split("//")[0]
        if '"' in code: continue
        for a, b in SUB:
            for m in re.finditer(a, code):
                x = code[:m.start()] + b + code[m.end():]
                if x != code: cand.append((f, i, F[i], l, x))
        if re.match(r"^\s+[\w>.\->\[\]\(\)\*]+(\.|->|\s*[+\-*/]?=\s|\()[^;]*;\s*$", code) and not re.match(r"^\s*(return|const|int|double|bool|auto|std::|Entity_ID|delete|JaliGeometry::\w+ \w)", code): cand.append((f, i, F[i], l, "  ;"))
        if re.match(r"^\s*(break|continue);", code): cand.append((f, i, F[i], l, "  ;"))
rnd.shuffle(cand)
seen = set(); n = 0
for f, i, fn, old, new in cand:
    if (f, i) in seen: continue
    seen.add((f, i))
    if n >= N: break
    L = open(R + f).read().split("\n"); L[i] = new
    open(R + f, "w").write("\n".join(L))
    res = "SURVIVED"; t0 = time.time(); ck = rules(f, fn)
    for c in ck:
        p = subprocess.run(["timeout", "400", "python3", "run.py", c], cwd=D + "/v", env=dict(os.environ, SV_REPO=D + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 1 and "VIOLATION" in p.stdout: res = "killed " + c; break
        if p.returncode == 0: continue
        res = "BUILD" if "error:" in p.stdout or "compil" in p.stdout else ("timeout " if p.returncode == 124 else "ERROR ") + c + " " + p.stdout.strip()[-200:].replace("\n", " | ")
        break
    subprocess.call(["git", "-C", R, "checkout", "-q", "--", "."])
    if res != "BUILD": n += 1
    print("%-12s %4ds %s:%d %s\n      - %s\n      + %s" % (res[:300], time.time() - t0, os.path.basename(f), i + 1, fn, old.strip(), new.strip()), flush=True)
