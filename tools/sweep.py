#!/usr/bin/env python3
"""Mutates copies of /repo's sources and runs the checks that should notice.
sweep.py SEED COUNT DIR [FILTER]  -- prints one line per mutant; those no check
noticed (SURVIVED) are for a person to look at: equivalent, or a gap."""
import os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "source/dealii/"; I = "include/mfmg/"
CHECKS = {
    I + "common/hierarchy.hpp": "C08 C28 C09 C15",
    I + "common/amge.templates.hpp": "C02 C04 C05 C06 C23 C03 C01 C21",
    I + "dealii/amge_host.templates.hpp": "C25 C07 C21 C24 C10 C22 C15 C09 C26",
    I + "common/lanczos.templates.hpp": "C19 C25 C15",
    I + "common/lanczos_deflatedop.templates.hpp": "C19",
    "source/common/utils.cc": "C16", I + "common/utils.hpp": "C17 C07",
    D + "dealii_trilinos_matrix_operator.cc": "C11 C12 C09",
    D + "dealii_matrix_operator.cc": "C11 C15",
    D + "dealii_matrix_free_operator.cc": "C12 C15",
    D + "dealii_utils.cc": "C12 C27", I + "dealii/dealii_utils.hpp": "C12 C10 C09",
    D + "dealii_smoother.cc": "C13 C15", D + "dealii_matrix_free_smoother.cc": "C13 C15",
    D + "dealii_solver.cc": "C14 C15", D + "dealii_mesh_evaluator.cc": "C24 C07",
    D + "dealii_matrix_free_mesh_evaluator.cc": "C24 C07 C25",
    D + "dealii_hierarchy_helpers.cc": "C09 C10 C15 C26 C22",
    D + "dealii_matrix_free_hierarchy_helpers.cc": "C09 C10 C15 C26 C22",
    I + "dealii/multivector.hpp": "C18", I + "dealii/anasazi_traits.hpp": "C18",
    I + "dealii/belos_traits.hpp": "C18", I + "dealii/anasazi.templates.hpp": "C25",
    I + "dealii/dealii_mesh_evaluator.hpp": "C24 C15 C07",
    I + "common/level.hpp": "C08 C09",
}
OPS = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]),
       (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]),
       (r" \* ", [" / "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1"]),
       (r" \+= ", [" = ", " -= "]), (r" -= ", [" += "]), (r"\b0\.", ["1."]), (r"\b1\.", ["2."]),
       (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"if \((?!std)", ["if (!"]),
       (r"VectorOperation::add", ["VectorOperation::insert"]),
       (r"NO_TRANS", ["TRANS"]), (r"\bbegin\(\)", ["begin() + 1"])]

def sites(path):
    out, text = [], open(path).read()
    body = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), text, flags=re.S)
    pos = 0
    for line in body.splitlines(True):
        code = line.split("//")[0]
        if not re.match(r"\s*(#|ASSERT|template|using|static_assert|std::to_string|\")", code):
            for pat, subs in OPS:
                for m in re.finditer(pat, code):
                    for s in subs:
                        if pat.startswith("if"):
                            # negate the whole condition
                            k, depth = m.end(), 1
                            while k < len(code) and depth:
                                depth += {"(": 1, ")": -1}.get(code[k], 0); k += 1
                            if depth:
                                continue
                            new = code[:m.start()] + "if (!(" + code[m.end():k] + ")" + code[k:]
                        else:
                            new = code[:m.start()] + s + code[m.end():]
                        out.append((pos, line, new.rstrip("\n") + "\n"))
            # drop a statement
            if re.match(r"\s+[\w>.\-\[\]()*]+(\(.*\)| [-+]?= .*);\s*$", code) and "return" not in code \
               and not re.match(r"\s*(auto|int|double|unsigned|std|dealii|const|bool)\b.* = ", code):
                out.append((pos, line, re.match(r"\s*", code).group() + ";\n"))
        pos += len(line)
    return text, out

def main():
    rng = random.Random(int(sys.argv[1]))
    root = sys.argv[3]
    flt = sys.argv[4] if len(sys.argv) > 4 else ""
    every = []
    for f, cs in CHECKS.items():
        if flt in f:
            text, ss = sites("/repo/" + f)
            every += [(f, text, s) for s in ss]
    # files evenly, then sites
    for n in range(int(sys.argv[2])):
        f = rng.choice(sorted({e[0] for e in every}))
        _, text, (pos, old, new) = rng.choice([e for e in every if e[0] == f])
        for d in ("include", "source"):
            subprocess.run(["rsync", "-a", "--delete", "/repo/%s/" % d, "%s/%s/" % (root, d)]
                           if shutil.which("rsync") else
                           ["sh", "-c", "mkdir -p %s && rm -rf %s/%s && cp -a /repo/%s %s/" % (root, root, d, d, root)], check=True)
        open(os.path.join(root, f), "w").write(text[:pos] + new + text[pos + len(old):])
        line = text[:pos].count("\n") + 1
        got = "SURVIVED"
        for c in CHECKS[f].split():
            try:
                r = subprocess.run(["./run.py", c], cwd=HERE, capture_output=True, text=True,
                                   timeout=1200, env=dict(os.environ, VERIF_REPO=root))
            except subprocess.TimeoutExpired:
                got = "timeout " + c
                break
            if r.returncode == 1:
                got = "caught by " + c
                break
            if r.returncode:
                got = "no answer (%s): " % c + (r.stdout + r.stderr)[-150:].replace("\n", " ")
                if "error:" in r.stdout + r.stderr or "build" in got or "compil" in got:
                    got = "does not compile"
                break
        print("%s:%d | %s  ->  %s | %s" % (f, line, old.strip(), new.strip(), got), flush=True)

if __name__ == "__main__":
    main()
