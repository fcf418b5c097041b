#!/usr/bin/env python3
"""mutate.py gen <out.json> [seed]: simple mutants (operators, constants, conditions, removed statements) of the non-test code of /repo/src.
mutate.py run <slot> <mutants.json> <from> <to> <results>: in /tmp/mut<slot>: those which build and pass the stable tests are
given to the checks of the file's properties, without the design models, until one reports a violation."""
import json, os, random, re, subprocess, sys, time

ORDER = {
    "hnsw.rs": "P03 P01 P04 P06 P19 P21 P12 P10 P09 P07 P08 P22 P16 P18 P05 P02 P11",
    "hnswio.rs": "P12 P20 P17 P13 P15 P14 P16 P22 P18",
    "datamap.rs": "P14 P17 P13 P12 P20",
    "flatten.rs": "P16 P12", "filter.rs": "P06 P07", "libext.rs": "P18", "api.rs": "P18 P12 P17"}


def candidates(path):
    src = open(path).read().split("\n")
    out = []
    depth_test = None
    for n, l in enumerate(src):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub fn") or s.startswith("fn ") \
           or re.match(r"(log::)?(trace|debug|info|warn|error|println|eprintln|assert|debug_assert|panic)", s) or "impl" in s \
           or "errmsg" in s or re.match(r"(where|T|D|F|D2|T2|'b|B)\b.*:.*\+", s) or s.startswith("pub struct") or "&'static" in s or s.startswith('"'):
            continue
        code = l.split("//")[0]

        def put(new, kind):
            if new != l:
                out.append({"file": os.path.basename(path), "line": n + 1, "old": l, "new": new, "kind": kind})
        for pat, rep in [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
                         (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
                         (r" \* ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
                         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
                         (r"\bif !", "if "), (r"\.rev\(\)", ""), (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"\b0\.\.", "1.."), (r"\.\.=", ".."),
                         (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\bu8::MAX\b", "u8::MIN"),
                         (r"\.push\(", ".insert(0, ")]:
            for m in re.finditer(pat, code):
                put(l[:m.start()] + re.sub(pat, rep, m.group(0)) + l[m.end():], pat + "->" + rep)
        m = re.match(r"^(\s*)(\} else )?if (?!let)(.*) \{\s*$", code)
        if m:
            put("%s%sif true || %s {" % (m.group(1), m.group(2) or "", "(" + m.group(3) + ")"), "if true")
            put("%s%sif false && %s {" % (m.group(1), m.group(2) or "", "(" + m.group(3) + ")"), "if false")
        if s.endswith(";") and not s.startswith("let ") and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.startswith("}") \
                and re.match(r"[a-zA-Z_*]", s) and not s.startswith(("pub ", "type ", "const ", "static ", "mod ", "extern")):
            put(re.match(r"\s*", l).group(0) + "{}" + (";" if not s.startswith("return") else ""), "removed")
    return out


def sh(c, t=900, **kw):
    try:
        p = subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", str(e)


def main():
    if sys.argv[1] == "gen":
        rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
        allm = []
        for f in ORDER:
            c = candidates("/repo/src/" + f)
            print(f, len(c))
            allm += c
        rnd.shuffle(allm)
        json.dump(allm, open(sys.argv[2], "w"))
        return
    slot, muts, a, b, res = sys.argv[2], json.load(open(sys.argv[3])), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
    S = "/tmp/mut" + slot
    sh("mkdir -p %s; [ -d %s/repo ] || cp -a /repo %s/repo; rsync -a --exclude .git --exclude out --exclude seeded /verif/ %s/verif/ || cp -a /verif %s/; rm -rf %s/verif/harness/target" % (S, S, S, S, S, S))
    sh("sed -i 's#\"/repo\"#\"%s/repo\"#' %s/verif/harness/Cargo.toml; cd %s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % (S, S, S))
    # the design models do not depend on the code
    p = S + "/verif/bin/check.py"
    c = open(p).read()
    c = c.replace("        r = self.tlc(\"m-\" + tag", "        return\n        r = self.tlc(\"m-\" + tag", 1)
    open(p, "w").write(c)
    p = S + "/verif/bin/plans.py"
    c = open(p).read()
    c = c.replace('    r = ctx.model(tag, "MCSeq", cfg, workers="6", timeout=800)', "    return", 1)
    open(p, "w").write(c)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("stable_pass") or base.get("passed")
    for k in range(a, min(b, len(muts))):
        m = muts[k]
        t0 = time.time()
        sh("cd %s/repo && git checkout -q -- ." % S)
        f = "%s/repo/src/%s" % (S, m["file"])
        L = open(f).read().split("\n")
        assert L[m["line"] - 1] == m["old"]
        L[m["line"] - 1] = m["new"]
        open(f, "w").write("\n".join(L))
        r = {"k": k, **m}
        rc, o = sh(". /opt/vp/env.sh; cd %s/repo && cargo build --offline 2>&1" % S)
        if rc != 0:
            r["res"] = "nobuild"
        else:
            rc, o = sh(". /opt/vp/env.sh; cd %s/repo && timeout 150 cargo nextest run --offline --no-fail-fast -E 'not (binary_id(hnsw_rs) and test(/^hnswio::tests::/))' 2>&1" % S, 300)
            ok = set("::".join(x) for x in re.findall(r"PASS \[[^\]]*\]\s+(?:\([^)]*\)\s+)?(\S+) (\S+)", o))
            miss = [s for s in stable if not any(x.endswith(s.split("::", 1)[-1]) for x in ok)]
            if miss:
                r["res"] = "tests"
            else:
                r["res"] = "SURVIVES"
                for p in ORDER[m["file"]].split():
                    rc, o = sh("cd %s/verif && timeout 900 python3 bin/check.py %s" % (S, p), 1000)
                    if rc != 0:
                        r["res"] = "caught" if rc == 1 else "rc=%s" % rc
                        r["by"] = p
                        r["msg"] = o[:200]
                        if rc == 1:
                            break
        r["t"] = round(time.time() - t0)
        with open(res, "a") as h:
            h.write(json.dumps(r) + "\n")
    sh("cd %s/repo && git checkout -q -- ." % S)


main()
