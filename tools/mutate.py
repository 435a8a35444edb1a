#!/usr/bin/env python3
"""Mutation sampling: single-token changes of ot/succinct that pass its tests, run against the checks.

  mutate.py OUT.jsonl N SEED [FILE...]   samples N mutants; appends one line per mutant to OUT.jsonl
Works in scratch copies under /tmp/mutwork and never touches /repo.
"""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutwork"
ORDER = {
    "bit_vector.hpp": "C01 C02 C03 C18 C21 C26 C27", "rs_bit_vector.hpp": "C04 C20 C18 C26 C27 C16", "rs_bit_vector.cpp": "C04 C18 C26 C27 C16",
    "darray.hpp": "C05 C26 C18 C15 C16 C20", "darray64.hpp": "C05 C08 C26 C18 C16 C20", "elias_fano.hpp": "C06 C07 C26 C18 C20 C16 C15 C27",
    "gamma_vector.hpp": "C08 C09 C26 C20 C18 C16", "gamma_bit_vector.hpp": "C08 C09 C26 C20 C18 C16", "elias_fano_list.hpp": "C08 C09 C26 C20 C18 C16",
    "elias_fano_compressed_list.hpp": "C08 C09 C26 C20 C18 C16", "nibble_vector.hpp": "C08 C20 C16 C18 C26", "forward_enumerator.hpp": "C09",
    "bp_vector.cpp": "C10 C11 C27 C26 C16 C18", "bp_vector.hpp": "C10 C11 C20 C26 C16 C15 C18", "cartesian_tree.hpp": "C12 C26 C20 C27 C18 C16", "topk_vector.hpp": "C13 C27 C20 C21 C18 C16",
    "mappable_vector.hpp": "C20 C21 C14 C15 C18", "mapper.hpp": "C15 C14 C22 C16 C18", "util.hpp": "C23 C24 C20", "vbyte.hpp": "C24", "broadword.hpp": "C25 C17 C10", "intrinsics.hpp": "C25 C17", "tables.hpp": "C25",
}
OPS = [
    (r"(?<![<>=!\-&|+*/%^])<(?![<=>])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=!\->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]), (r" \* ", [" + "]), (r" % ", [" / "]), (r" / ", [" % "]),
    (r"<<(?!=)", [">>"]), (r">>(?!=)", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"~", [""]), (r"!(?!=)", [""]),
    (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["=", "&="]), (r"&=", ["|="]), (r"\b64\b", ["63", "32"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|1[0-9]+|[2-9][0-9]+)\b", ["(\\g<0> + 1)", "(\\g<0> - 1)"]),
    (r"\buint64_t\b", ["uint32_t"]), (r"\bsize_t\b", ["uint32_t"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+\+", ["--"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]),
    (r"\bm_([a-z0-9_]+)\.swap\(other", [";(void)(other"]), (r"\bexcess_t\b", ["int16_t"]), (r"\buint16_t\b", ["uint8_t"]), (r"\bbreak;", ["continue;", ";"]), (r"\breturn\b(?=;)", [";"]),
]


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout", "")


def candidates(f):
    lines = open("/repo/" + f).read().split("\n")
    out = []
    block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "assert", "/*", "*", "typedef", "template", "namespace", "friend", "using")) or "throw " in s:
            continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for rep in reps:
                    new = code[:m.start()] + m.expand(rep) + code[m.end():] + l[len(code):]
                    if new != l:
                        out.append((f, i, l, new))
        if re.match(r"^\s+[\w\.\->\*\[\]\(\), &:+<>|=/%]+;$", code) and not re.match(r"^\s+(const |static |uint|size_t|T |bool |char|unsigned|excess_t|typename|return|break|std::vector<[^(]*;)", code):
            out.append((f, i, l, re.sub(r"\S.*", ";", code)))
    return out


def tests(d):
    r = sh('cmake -S . -B _build -G Ninja -Wno-deprecated -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g0" -DCMAKE_CXX_FLAGS="-Wno-error -w" -DCMAKE_POLICY_VERSION_MINIMUM=3.5 >/dev/null && ninja -C _build $(cd _build && ninja -t targets all | grep -o "^test_[a-z_]*:" | tr -d : | sort -u)', cwd=d)
    if r.returncode:
        return "does not compile"
    exes = [e for e in sorted(os.listdir(d + "/_build")) if e.startswith("test_") and os.path.isfile(d + "/_build/" + e) and os.access(d + "/_build/" + e, os.X_OK)]

    def one(e):
        return e, sh("timeout 60 ./" + e, cwd=d + "/_build", env={"MALLOC_PERTURB_": "255"} if e == "test_bit_vector" else None).returncode
    with ThreadPoolExecutor(8) as p:
        bad = [e for e, rc in p.map(one, exes) if rc]
    return "killed by tests" if bad else None


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(ORDER)
    rng = random.Random(seed)
    pool = {f: candidates(f) for f in files}
    print({f: len(c) for f, c in pool.items()}, sum(map(len, pool.values())), flush=True)
    done = set()
    for k in range(n):
        f = rng.choice(files)
        if not pool[f]:
            continue
        f, i, old, new = rng.choice(pool[f])
        if (f, i, new) in done:
            continue
        done.add((f, i, new))
        d = os.path.join(W, "m%d" % seed)
        if not os.path.isdir(d):
            os.makedirs(d)
            sh("git -C /repo archive HEAD | tar -x -C %s && cp /repo/succinct_config.hpp %s/" % (d, d))
        lines = open("/repo/" + f).read().split("\n")
        assert lines[i] == old
        lines[i] = new
        open(d + "/" + f, "w").write("\n".join(lines))
        t0 = time.time()
        res = tests(d)
        caught = None
        if not res:
            for p in ORDER[f].split():
                r = sh("bin/check " + p, cwd=V, env={"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    caught = p
                    break
                if r.returncode != 0:
                    caught = "%s rc=%d %s" % (p, r.returncode, r.stdout[-300:])
                    break
        shutil.copy("/repo/" + f, d + "/" + f)
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), result=res or ("caught by " + caught if caught else "SURVIVED"), seconds=round(time.time() - t0))
        with open(out, "a") as o:
            o.write(json.dumps(rec) + "\n")
        print(json.dumps(rec), flush=True)


main()
