"""Runs Kani proof harnesses on the real code and turns failures into replayed counterexamples."""
import json, os, re, shutil, subprocess, time

SKIP_FAIL = re.compile(r"unwinding assertion|is not currently supported by Kani|unsupported|recursion unwinding|Function .* with missing definition", re.I)


def env(ctx):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["VK_REPO"] = ctx["repo"]
    e["VK_TIER"] = ctx["tier"]
    e.pop("RUSTFLAGS", None)
    return e


def sh(cmd, cwd, ctx, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(ctx), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return 124, out


def prepare(ctx, crate):
    """A scratch copy of the harness crate (its path dependencies still point at the real /repo)."""
    dst = os.path.join(ctx["scratch"], crate)
    if not os.path.exists(dst):
        shutil.copytree(os.path.join(ctx["verif"], "kani", crate), dst, ignore=shutil.ignore_patterns("target"))
        if ctx["repo"] != "/repo":
            for f in ("Cargo.toml", "build.rs"):
                p = os.path.join(dst, f)
                if os.path.exists(p):
                    s = open(p).read().replace("/repo/", ctx["repo"] + "/")
                    open(p, "w").write(s)
    return dst


def base_flags(ctx, job):
    fl = ["--target-dir", os.path.join(ctx["scratch"], "target"), "-Z", "unstable-options", "--no-assertion-reach-checks"]
    if job.get("stubbing"):
        fl += ["-Z", "stubbing"]
    if job.get("contracts"):
        fl += ["-Z", "function-contracts"]
    if job.get("features"):
        fl += ["--features", job["features"]]
    return fl


def parse(out):
    """-> {harness: dict(status, obligations, failed, time, covers)}"""
    res, cur = {}, {}
    thread = "0"
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+)\.\.\.", line)
        if m:
            thread = m.group(1) or "0"
            cur[thread] = m.group(2)
            res[m.group(2)] = dict(status="none", obligations=0, failed=0, time_s=0.0, cov=None, fails=[])
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m:
            thread = m.group(1)
            continue
        h = cur.get(thread)
        if not h:
            continue
        r = res[h]
        m = re.match(r" \*\* (\d+) of (\d+) failed", line)
        if m:
            r["failed"], r["obligations"] = int(m.group(1)), int(m.group(2))
        m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["cov"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            r["fails"].append(m.group(1))
        m = re.match(r"VERIFICATION:- (\S+)", line)
        if m:
            r["status"] = "ok" if m.group(1) == "SUCCESSFUL" else "failed"
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        if m:
            r["time_s"] = round(float(m.group(1)), 2)
        if "CBMC timed out" in line or "CBMC failed" in line or "out of memory" in line:
            r["status"] = "undecided"
    return res


def run_job(ctx, job):
    crate = prepare(ctx, job["crate"])
    flags = base_flags(ctx, job)
    tmo = job.get("harness_timeout", 240)
    jobs = job.get("jobs", 8)
    cmd = ["cargo", "kani"] + flags + ["-j", str(jobs), "--output-format", "terse", "--harness-timeout", "%ds" % tmo]
    sel = list(job["harness"])
    if ctx["tier"] == "thorough":
        sel += job.get("harness_thorough", [])
    for h in sel:
        cmd += ["--harness", h]
    left = ctx["deadline"] - time.time()
    rc, out = sh(cmd, crate, ctx, max(20, min(job.get("timeout", 800), left)))
    res = parse(out)
    if not res and rc == 124:
        print("  UNDECIDED %s: out of time" % job["name"])
        return dict(units=[dict(name=job["name"], obligations=0, discharged=0, time_s=0, status="undecided", bounded=False, backend="kani/cbmc+cadical")], cmd=" ".join(cmd))
    if not res:
        v = build_failure(ctx, job, crate, sel)
        if v:
            return v
        print(out[-6000:])
        if job["crate"] == "compiler":
            # the harness calls private functions: a repository which builds without them is not broken
            rc, _ = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(ctx["scratch"], "native"), "--manifest-path", os.path.join(ctx["repo"], "compiler", "Cargo.toml")], crate, ctx, 300)
            if rc == 0:
                print("  UNDECIDED %s: the functions under contract are not reachable by their names" % job["name"])
                return dict(units=[dict(name=job["name"], obligations=0, discharged=0, time_s=0, status="undecided", bounded=False, backend="kani/cbmc+cadical")], cmd=" ".join(cmd))
        raise RuntimeError("kani ran no harness for %s (exit %d)" % (job["name"], rc))
    expected = job.get("min_harnesses", 1)
    if len(res) < expected and rc != 124:
        print(out[-6000:])
        raise RuntimeError("kani found %d harnesses for %s, expected at least %d" % (len(res), job["name"], expected))
    units = []
    bounded = job.get("bounded", False)
    failed = []
    for h, r in sorted(res.items()):
        u = dict(name=h, obligations=r["obligations"], discharged=r["obligations"] - r["failed"], time_s=r["time_s"],
                 bounded=bounded if isinstance(bounded, bool) else bool(re.search(bounded, h)), backend="kani/cbmc+cadical")
        if r["status"] == "ok":
            u["status"] = "ok"
            if r["cov"] and r["cov"][0] < r["cov"][1]:
                u["status"] = "vacuous"
        elif r["status"] == "failed":
            real = [f for f in r["fails"] if not SKIP_FAIL.search(f)]
            if not real:
                u["status"] = "undecided"
            else:
                u["status"] = "failed"
                u.update(note_failure(ctx, h, r))
                failed.append((r["time_s"], u, r))
        else:
            u["status"] = "undecided"
        if u["status"] == "undecided":
            u["discharged"] = 0
            print("  UNDECIDED %s: %s" % (h, "; ".join(r["fails"]) or r["status"]))
        units.append(u)
    small = [u for u in units if u["status"] == "undecided"][:8]
    if small and not failed and has_small(crate):
        fallback(ctx, job, crate, small, failed)
    # counterexamples: shortest first, until one is found
    if not (job.get("known") and all(u["name"] in job["known"] for _, u, _ in failed)):
        for _, u, r in sorted(failed, key=lambda x: x[0])[:4]:
            if u["name"] in job.get("known", []):
                continue
            if ctx.setdefault("found", 0) or time.time() > ctx["deadline"] - 180:
                break
            u.update(replay(ctx, job, crate, u["name"], r))
            ctx["found"] += u["input_found"]
    return dict(units=units, cmd="cargo kani (%s) --harness %s" % (job["crate"], ",".join(sel)))


def has_small(crate):
    return bool(re.search(r"^small\b", open(os.path.join(crate, "Cargo.toml")).read(), re.M))


def fallback(ctx, job, crate, units, failed):
    """Obligations which could not be decided for all inputs are at least decided for short ones (bounded,
    never counted as discharged)."""
    left = ctx["deadline"] - time.time() - 150
    if left < 60:
        return
    feats = ",".join([x for x in [job.get("features")] if x] + ["tiny"])
    cmd = ["cargo", "kani"] + base_flags(ctx, dict(job, features=feats)) + ["-j", "8", "--output-format", "terse", "--harness-timeout", "%ds" % min(240, left), "--default-unwind", "10", "--exact"]
    for u in units:
        cmd += ["--harness", u["name"]]
    rc, out = sh(cmd, crate, ctx, min(300, left))
    for h, r in parse(out).items():
        u = next((u for u in units if u["name"] == h), None)
        if not u:
            continue
        real = [f for f in r["fails"] if not SKIP_FAIL.search(f)]
        print("  FALLBACK %s on short inputs: %s" % (h, r["status"]))
        if r["status"] == "failed" and real:
            u.update(status="failed", bounded=True, obligations=r["obligations"], discharged=r["obligations"] - r["failed"])
            u.update(note_failure(ctx, h, r))
            failed.append((r["time_s"], u, r))


def replay_path(ctx, h):
    return os.path.join(ctx["replay_dir"], "%s-%s.txt" % (ctx["pid"], h.replace("::", ".")))


def header(ctx, h, r):
    lines = ["property: %s" % ctx["pid"], "failed obligation (Kani harness): %s" % h, "failed checks:"]
    return lines + ["  - %s (x%d)" % (f, r["fails"].count(f)) for f in sorted(set(r["fails"]))]


def note_failure(ctx, h, r):
    path = replay_path(ctx, h)
    with open(path, "w") as fh:
        fh.write("\n".join(header(ctx, h, r) + ["", "no-failing-input-found: the failed obligation above is the evidence."]) + "\n")
    return dict(replay=path, input_found=False)


def build_failure(ctx, job, crate, sel):
    """The harness crate cannot be built: is it because the schemas of the corpus are no longer compiled,
    or not to Rust which builds? (the two crates of the repository must build on their own)"""
    if not os.path.exists(os.path.join(crate, "corpus")):
        return None
    tgt = os.path.join(ctx["scratch"], "native")
    for c in ("runtime", "compiler"):
        rc, out = sh(["cargo", "build", "--offline", "--target-dir", tgt, "--manifest-path", os.path.join(ctx["repo"], c, "Cargo.toml")], crate, ctx, 300)
        if rc != 0:
            print(out[-3000:])
            return None
    cmd = ["cargo", "build", "--offline", "--target-dir", tgt] + (["--features", job["features"]] if job.get("features") else [])
    rc, out = sh(cmd, crate, ctx, 300)
    script = "failed to run custom build command" in out
    errors = [e for e in re.split(r"(?=^error)", out, flags=re.M) if re.match(r"error(\[E\d+\])?: ", e)]
    generated = [e for e in errors if "/out/" in e]
    if rc == 0 or not (script or generated):
        return None
    name = "compile_corpus"
    path = replay_path(ctx, job["name"] + "." + name)
    what = "the compiler fails on the schemas of corpus/" if script else "the Rust generated for the schemas of corpus/ does not compile"
    with open(path, "w") as fh:
        fh.write("property: %s\nfailed obligation: %s\n%s\n\nfailing input: the schemas %s/kani/%s/corpus/*.json5 (features: %s)\n$ %s\n%s\n"
                 % (ctx["pid"], name, what, ctx["verif"], job["crate"], job.get("features"), " ".join(cmd), "".join(generated)[:6000] or out[-6000:]))
    return dict(units=[dict(name=job["name"] + "." + name, status="failed", obligations=1, discharged=0, time_s=0, bounded=True,
                            backend="rustc", replay=path, input_found=True)], cmd=" ".join(cmd))


def module_file(crate, harness):
    parts = harness.split("::")[:-1]
    p = os.path.join(crate, "src", *parts) + ".rs" if parts else os.path.join(crate, "src", "lib.rs")
    while parts and not os.path.exists(p):
        parts = parts[:-1]
        p = os.path.join(crate, "src", *parts) + ".rs" if parts else os.path.join(crate, "src", "lib.rs")
    return p, harness.split("::")[len(parts):-1]


def replay(ctx, job, crate, h, r):
    """Asks Kani for a concrete counterexample and runs it natively against the real code. Crates with a
    feature `small` are asked for a short input first: the same obligation on inputs which can be executed."""
    path = replay_path(ctx, h)
    lines = header(ctx, h, r)
    found = False
    feats = [x for x in [job.get("features")] if x]
    for variant in ([feats + ["small"]] if has_small(crate) else []) + [feats]:
        if time.time() > ctx["deadline"] - 120:
            break
        j = dict(job, features=",".join(variant) if variant else None)
        # the harness itself took r["time_s"]; the trace costs as much again
        limit = int(max(30, min(max(150, 3 * r["time_s"]), 400, ctx["deadline"] - time.time() - 100)))
        cmd = ["cargo", "kani"] + base_flags(ctx, j) + ["--harness", h, "--exact", "-Z", "concrete-playback", "--concrete-playback=print",
                                                       "--harness-timeout", "%ds" % limit]
        rc, out = sh(cmd, crate, ctx, limit + 60)
        fails = [m.group(0).rstrip() for m in re.finditer(r"^Check \d+: .*?(?=^Check \d+:|^SUMMARY)", out, re.M | re.S) if "Status: FAILURE" in m.group(0)]
        lines += ["", "$ " + " ".join(cmd), "verifier output (failed checks):"]
        lines += fails[:8] + (["... %d more" % (len(fails) - 8)] if len(fails) > 8 else [])
        tests = [t for t in re.findall(r"```\n(.*?)```", out, re.S) if "kani::concrete_playback_run" in t]
        # several failing checks may come with one test each: run them all, one of them reproduces
        named = {}
        for t in tests:
            named.setdefault(re.search(r"fn (\w+)\(", t).group(1), t[t.index("#[test]"):])
        tests = list(named.values())[:4]
        if not tests:
            continue
        pc = os.path.join(ctx["scratch"], "playback")
        if os.path.exists(pc):
            shutil.rmtree(pc)
        shutil.copytree(crate, pc)
        f, inner = module_file(pc, h)
        fn = h.split("::")[-1]
        names = []
        with open(f, "a") as fh:
            for t in tests:
                names.append(re.search(r"fn (\w+)\(", t).group(1))
                if inner:
                    t = t.replace("concrete_playback_run(concrete_vals, %s)" % fn, "concrete_playback_run(concrete_vals, %s)" % "::".join(inner + [fn]))
                fh.write("\n" + t + "\n")
        if inner:
            make_public(f, inner, fn)
        for t, name in zip(tests, names):
            cmd = ["cargo", "kani", "playback", "-Z", "concrete-playback"]
            if j.get("features"):
                cmd += ["--features", j["features"]]
            cmd += ["--", name]
            rc, out = sh(cmd, pc, ctx, max(30, min(200, ctx["deadline"] - time.time())))
            lines += ["", "counterexample as a unit test of the harness crate (%s):" % job["crate"], t, "$ " + " ".join(cmd), "native run against the real code:"]
            m = re.search(r"^running \d+ test.*", out, re.M | re.S)
            lines.append((m.group(0) if m else out)[-4000:])
            if re.search(r"^test .*%s.* FAILED|panicked at|process didn't exit successfully|signal: " % name, out, re.M) \
                    and "could not compile" not in out and "det vals" not in out and "Assume" not in out and "kani::assume" not in out:
                found = True
                break
        if found:
            break
    if not found:
        lines += ["", "no-failing-input-found: the failed obligation above is the evidence."]
    with open(path, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    return dict(status="failed", replay=path, input_found=found)


def make_public(f, inner, fn):
    """harness modules and functions are private: open them to the generated unit test"""
    s = open(f).read()
    s = re.sub(r"^(\s*)mod (\w+|\$\w+) \{", r"\1pub mod \2 {", s, flags=re.M)
    s = re.sub(r"^(\s*)fn (\w+|\$\w+)\(\) \{", r"\1pub fn \2() {", s, flags=re.M)
    open(f, "w").write(s)
