#!/usr/bin/env python3
"""Mutation campaign (development tool, not used by any check): which one-token changes does no driver notice?

usage: mutate.py OUT.jsonl [--file SUBSTR] [--sample N] [--seed S]
Works on scratch copies of /repo's sources below /tmp/mutwork. A mutant is run against the drivers of the checks
(one plain build, assertions on, reduced workload) until one reports; survivors have to be judged by hand."""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutwork"
D = {"C01": ("c01.cpp", []), "C02": ("c02.cpp", []), "C03": ("c03.cpp", []), "C04": ("c04.cpp", ["-DSX8=0"]), "C05": ("c04.cpp", ["-DSX8=1"]),
     "C06": ("c06.cpp", ["-DSX8=0"]), "C07": ("c06.cpp", ["-DSX8=1"]), "C08": ("c08.cpp", ["-DCALLBACK=0"]), "C09": ("c08.cpp", ["-DCALLBACK=1"]),
     "C10": ("c10.cpp", []), "C11": ("c11.cpp", []), "C12": ("c12.cpp", []), "C13": ("c13.cpp", []), "C14": ("c14.cpp", []), "C15": ("c15.cpp", []),
     "C16": ("c16.cpp", []), "C17": ("c17.cpp", []), "C18": ("c18.cpp", []), "C19": ("c19.cpp", []), "C20": ("c20.cpp", []), "C21": ("c21.cpp", []), "C22": ("c22.cpp", []), "C27": ("c27.cpp", [])}
ORDER = {"capability_inquiry": "C03 C02 C22 C17 C01", "channel_voice_message.h": "C13 C14 C17", "data_message": "C16 C17 C04 C05 C06 C07", "flex_data": "C16 C17", "jitter": "C20 C19",
         "manufacturer": "C03 C17 C21", "byte_stream": "C08 C09 C10", "stream_message": "C15 C17", "sysex_collector": "C06 C07 C04", "sysex.": "C21 C04 C05 C03",
         "system_message": "C16 C08 C17", "types.h": "C12 C11 C14 C13", "universal_packet": "C18 C17 C10 C14", "universal_sysex": "C21 C17 C02", "utility": "C16 C19 C17"}

def order(f):
    first = []
    for k, v in ORDER.items():
        if k in f: first += v.split()
    return list(dict.fromkeys(first)) + (["C01"] if "C01" not in first else [])

def mutants(path, text):
    out = []
    depth_comment = False
    pos = 0
    for ln, line in enumerate(text.splitlines(True)):
        start = pos; pos += len(line)
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: " " * len(m.group()), line)
        code = re.sub(r"'(\\.|[^'\\])'", lambda m: " " * len(m.group()), code)
        code = re.sub(r"//.*", lambda m: " " * len(m.group()), code)
        if depth_comment or "/*" in code:
            depth_comment = "*/" not in code
            continue
        if code.lstrip().startswith("#") or "assert" in code: continue
        def add(a, b, new, kind): out.append((path, start + a, start + b, new, kind, ln + 1))
        for m in re.finditer(r" (<=|>=|<|>|==|!=) ", code):
            o = m.group(1)
            for n in {"<": ["<=", ">"], "<=": ["<", "=="], ">": [">=", "<"], ">=": [">", "=="], "==": ["!=", "<="], "!=": ["==", ">"]}[o]: add(m.start(1), m.end(1), n, "rel")
        for m in re.finditer(r"(&&|\|\|)", code): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "log")
        for m in re.finditer(r" ([+\-|&^]|<<|>>) ", code):
            o = m.group(1)
            add(m.start(1), m.end(1), {"+": "-", "-": "+", "|": "&", "&": "|", "^": "|", "<<": ">>", ">>": "<<"}[o], "arith")
        for m in re.finditer(r"(\+=|-=|\|=|&=|\+\+|--)", code): add(m.start(), m.end(), {"+=": "-=", "-=": "+=", "|=": "&=", "&=": "|=", "++": "--", "--": "++"}[m.group()], "assign")
        for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|0b[01]+|\d+)(?=[uUlL]*(?![\w.]))", code):
            t = m.group(); v = int(t, 0) if not (t.startswith("0") and t.isdigit()) else int(t)
            cand = {v + 1, v - 1 if v else 1}
            if t.startswith("0x") or t.startswith("0b"):
                if v: cand |= {v ^ (1 << (v.bit_length() - 1)), v | (1 << v.bit_length()), v & (v - 1)}
            for n in sorted(cand):
                if n != v: add(m.start(), m.end(), hex(n) if n > 9 else str(n), "num")
        for m in re.finditer(r"\b(true|false)\b", code): add(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
        if RARE: # wrong only for one value, or only once a container has a certain size
            for m in re.finditer(r"\breturn ([^;{}]+);", code):
                for k in RARE: add(m.start(), m.end(), "return vhm_rare<%d>(%s);" % (k, line[m.start(1):m.end(1)]), "rare")
            for m in re.finditer(r"([\w.\->]+)\.push_back\(([^;]*)\);", code):
                for k in RARE: add(m.start(), m.end(), "if (%s.size() != %d) %s" % (m.group(1), k, line[m.start():m.end()]), "rare")
            for m in re.finditer(r"\b(set_byte|add_payload_byte|set_payload_byte)\(([^;]*)\);", code):
                for k in RARE: add(m.start(), m.end(), "%s(vhm_rare<%d>(%s));" % (m.group(1), k, line[m.start(2):m.end(2)]) if "," not in m.group(2) else "%s(%s, vhm_rare<%d>(uint8_t(%s)));" % (m.group(1), line[m.start(2):m.end(2)].split(",", 1)[0], k, line[m.start(2):m.end(2)].split(",", 1)[1]), "rare")
        s = code.strip()
        if re.match(r"^[A-Za-z_>\-+*(][\w\[\].\->:+]*\s*(=|\+=|\|=|\()[^{}]*;$", s) and not s.startswith(("return", "constexpr", "using", "auto", "const ", "template", "static")):
            a = code.index(s); add(a, a + len(s), ";", "del")
        for m in re.finditer(r"if \(", code):
            add(m.end(), m.end(), "!", "neg") if code[m.end()] == "(" else None
        for m in re.finditer(r"\b(size_t|uint32_t|uint28_t|uint16_t|uint14_t|uint64_t)\b", code):
            for n in {"size_t": ["uint8_t", "uint16_t"], "uint32_t": ["uint16_t"], "uint28_t": ["uint16_t"], "uint16_t": ["uint8_t"], "uint14_t": ["uint8_t"], "uint64_t": ["uint32_t"]}[m.group()]: add(m.start(), m.end(), n, "type")
    return out

RARE = [int(k) for k in os.environ.get("RARE", "").split(",") if k]
HELPER = """#ifndef VHM_RARE
#define VHM_RARE
#include <type_traits>
template<unsigned long long K, class T> constexpr T vhm_rare(T v)
{
    static_assert(std::is_integral_v<T> && !std::is_same_v<T, bool>, "out of scope");
    static_assert(sizeof(T) > 1 || K < 256, "out of scope");
    return static_cast<unsigned long long>(v) == K ? static_cast<T>(v ^ 1) : v;
}
#endif
"""
local = threading.local(); counter = iter(range(1000)); lock = threading.Lock()
def workdir():
    if not hasattr(local, "d"):
        with lock: local.d = "%s/w%d" % (W, next(counter))
        shutil.rmtree(local.d, ignore_errors=True)
        os.makedirs(local.d)
        for x in ("inc", "src"): shutil.copytree("/repo/" + x, local.d + "/" + x)
    return local.d

def attempt(mu):
    path, a, b, new, kind, ln = mu
    d = workdir()
    text = open("/repo/" + path).read()
    open(d + "/" + path, "w").write((HELPER if kind == "rare" else "") + text[:a] + new + text[b:])
    res = {"file": path, "line": ln, "kind": kind, "old": text[a:b], "new": new, "src": text.splitlines()[ln - 1].strip(), "col": a - text.rfind("\n", 0, a)}
    try:
        first = True
        for c in order(path):
            drv, fl = D[c]
            with open(d + "/u.cpp", "w") as f:
                f.write('#include "%s/harness/%s"\n' % (VERIF, drv) + "".join('#include "%s/%s"\n' % (d, s) for s in sorted(SRC)))
            cc = ["g++", "-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I", d + "/inc", "-I", VERIF + "/harness"] + fl
            if first:
                r = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I", d + "/inc"] + [d + "/" + s for s in SRC], capture_output=True)
                if r.returncode: res["result"] = "no-compile"; return res
                first = False
            r = subprocess.run(cc + [d + "/u.cpp", "-o", d + "/u", "-lpthread", "-ldl"], capture_output=True, text=True)
            if r.returncode: res["result"] = "killed"; res["by"] = c + ":compile"; return res
            try:
                r = subprocess.run([d + "/u", "--seed", "1", "--mult", "3", "--shard", "0", "--shards", "1", "--tier", "quick", "--out", d + "/o.json", "--build", "opt"], capture_output=True, text=True, errors="replace", timeout=300)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0: res["result"] = "killed"; res["by"] = c; return res
        res["result"] = "SURVIVED"
        return res
    finally:
        open(d + "/" + path, "w").write(text)

if __name__ == "__main__":
    out = sys.argv[1]; args = sys.argv[2:]
    sub = args[args.index("--file") + 1] if "--file" in args else ""
    n = int(args[args.index("--sample") + 1]) if "--sample" in args else 0
    rnd = random.Random(int(args[args.index("--seed") + 1]) if "--seed" in args else 1)
    SRC = ["src/" + os.path.basename(f) for f in glob.glob("/repo/src/*.cpp")]
    files = [os.path.relpath(f, "/repo") for f in sorted(glob.glob("/repo/src/*.cpp") + glob.glob("/repo/inc/midi/*.h"))]
    ms = []
    for f in files:
        if sub in f and "manufacturer" not in f: ms += mutants(f, open("/repo/" + f).read())
    if RARE: ms = [m for m in ms if m[4] == "rare"]
    print(len(ms), "mutants")
    for done in (args[i + 1] for i, x in enumerate(args) if x == "--skip"):
        seen = set()
        for l in open(done):
            r = json.loads(l); seen.add((r["file"], r["line"], r["col"], r["new"]))
        texts = {f: open("/repo/" + f).read() for f in files}
        ms = [m for m in ms if (m[0], m[5], m[1] - texts[m[0]].rfind("\n", 0, m[1]), m[3]) not in seen]
    print(len(ms), "left")
    rnd.shuffle(ms)
    if n: ms = ms[:n]
    stat = {}
    with open(out, "w") as o, cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as pool:
        for f in cf.as_completed([pool.submit(attempt, m) for m in ms]):
            r = f.result(); stat[r["result"]] = stat.get(r["result"], 0) + 1
            o.write(json.dumps(r) + "\n"); o.flush()
    print(stat)
    shutil.rmtree(W, ignore_errors=True)
