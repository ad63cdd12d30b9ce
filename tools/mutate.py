#!/usr/bin/env python3
"""Development tool: systematic small changes to the C sources, to see which
ones no check notices.  Survivors are either equivalent or gaps.

    mutate.py WORKDIR [-j N] [-s EVERY] [FILE...]

Works on copies of /repo under WORKDIR; nothing here is run by a check.
"""
import os, re, shutil, subprocess, sys, threading, queue, random, argparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "avltree.c": "C01 C02 C03 C13", "hashtable.c": "C04 C05 C03 C13",
    "list.c": "C06 C03 C13", "priority_queue.c": "C07 C08 C13",
    "intset.c": "C09 C13", "bytearray.c": "C10 C11 C12 C13",
    "charstr.c": "C22 C23 C21 C19 C20 C31 C30 C13",
    "charstr_decompose.c": "C24 C29", "charstr_recompose.c": "C25 C29",
    "charstr_unicode.c": "C26 C27", "charstr_puny.c": "C29 C13",
    "date.c": "C17", "float.c": "C18", "fsalloc.c": "C14 C13",
    "integer.c": "C30", "base64.c": "C15 C16 C13", "gen_idna_table.c": "C28",
}
RULES = [
    (r"(?<![<>=!-])<(?![<=])(?=[^>]*$|[^>]* )", ["<="]), (r"<=", ["<"]),
    (r"(?<![<>=-])>(?![>=])", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]),
    (r"(?<=[\w\])] )\+(?= )", ["-"]), (r"(?<=[\w\])] )-(?= )", ["+"]),
    (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"!(?=[\w(])", [""]),
    (r"(?<=[\w)\]] )&(?= )", ["|"]), (r"(?<=[\w)\]] )\|(?= )", ["&"]),
    (r"<<(?=[ \w])", [">>"]), (r">>(?=[ \w])", ["<<"]), (r"~", [""]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])(?<!')(\d+)(?![\w.'])", ["N+1", "N-1"]),
    (r"\bsize_t\b(?= \w+ =)", ["uint16_t", "uint8_t"]),
    (r"\b(unsigned|int|int64_t|uint64_t|long|uintmax_t)\b(?= \w+ =)", ["int8_t", "int16_t"]),
    (r"\b(next|prev|left|right|first|last)\b", ["SWAP"]),
    (r"\b(NULL)\b(?=;)", []),
]
SWAP = {"next": "prev", "prev": "next", "left": "right", "right": "left",
        "first": "last", "last": "first"}


def code_lines(text):
    """Line numbers inside function bodies, comments left out."""
    depth, incomment, out = 0, False, []
    table = False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if incomment:
            incomment = "*/" not in s
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if s.startswith("//") or s.startswith("#") or s.startswith("assert"):
            continue
        if re.match(r"^(static )?(const )?.*\[.*\].*= *\{?$", l) and depth == 0:
            table = True
        if depth > 0 and not table and s:
            out.append(i)
        depth += l.count("{") - l.count("}")
        if depth == 0:
            table = False
    return out


def mutants(path):
    with open(path) as f:
        text = f.read()
    lines = text.split("\n")
    for i in code_lines(text):
        l = lines[i]
        for pat, reps in RULES:
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2:
                    continue
                for r in reps:
                    if r in ("N+1", "N-1"):
                        r = str(int(m.group(1)) + (1 if r == "N+1" else -1))
                    elif r == "SWAP":
                        r = SWAP[m.group(0)]
                    yield i, l[:m.start()] + r + l[m.end():]
        s = l.strip()
        if s.endswith(";") and not re.match(
                r"(const |struct |static |unsigned |int |size_t |char |return;|"
                r"uint\w+ |int\w+ |\w+_t \*?\w+( =|;)|for )", s) \
                and not s.startswith("}"):
            prev = lines[i - 1].strip()
            if prev.endswith((";", "{", "}", ")", ":", "else")):
                yield i, re.match(r"\s*", l).group(0) + ";"
        m = re.match(r"(\s*(?:\} else )?if )\((.*)\)( \{)?$", l)
        if m:
            yield i, m.group(1) + "(true)" + (m.group(3) or "")
            yield i, m.group(1) + "(false)" + (m.group(3) or "")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("work")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    os.makedirs(a.work, exist_ok=True)
    q = queue.Queue()
    jobs = []
    for f in a.files or sorted(PROPS):
        seen = set()
        for i, new in mutants(os.path.join("/repo/src", f)):
            if (i, new) not in seen:
                seen.add((i, new))
                jobs.append((f, i, new))
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[::a.s]
    jobs.sort(key=lambda j: (j[0], j[1]))
    for j in jobs:
        q.put(j)
    print("mutants", len(jobs), flush=True)
    cache = os.path.join(a.work, "mc")
    os.makedirs(cache, exist_ok=True)
    lock = threading.Lock()
    count = {}

    def report(kind, f, i, new, extra=""):
        with lock:
            count[kind] = count.get(kind, 0) + 1
            print("%-9s %s:%d  %s   %s" % (kind, f, i + 1, new.strip(), extra), flush=True)

    def worker(k):
        d = os.path.join(a.work, "w%d" % k)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "stage"))
        env = dict(os.environ, VERIF_REPO=d, VERIF_MC_CACHE=cache)
        while True:
            try:
                f, i, new = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(d, "src", f)
            with open(os.path.join("/repo/src", f)) as fp:
                lines = fp.read().split("\n")
            old = lines[i]
            lines[i] = new
            with open(p, "w") as fp:
                fp.write("\n".join(lines))
            verdict = "SURVIVED"
            why = "was: " + old.strip()
            for prop in PROPS[f].split():
                try:
                    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/check.py"), prop],
                                       env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired:
                    verdict, why = "TIMEOUT", prop
                    break
                o = r.stdout.decode(errors="replace")
                if r.returncode == 1 and "VIOLATION" in o:
                    verdict, why = "killed", prop
                    break
                if r.returncode != 0:
                    if "build failed" in o:
                        verdict, why = "nobuild", ""
                    else:
                        verdict, why = "ERROR", prop + " " + o.strip()[-200:].replace("\n", " | ")
                    break
            report(verdict, f, i, new, why)
            with open(os.path.join("/repo/src", f)) as fp:
                src = fp.read()
            with open(p, "w") as fp:
                fp.write(src)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(count, flush=True)


main()
