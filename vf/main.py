"""Driver of one check: build from /repo, run the workload in worker processes under the
property's monitors, aggregate what the monitors observed, decide."""
import argparse, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

from vf import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    out = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=<id> key=<key> <what fails>
                f = line.split(None, 3)
                if f[1] == "property=" + pid:
                    out[f[2][4:]] = f[3] if len(f) > 3 else ""
    except OSError:
        pass
    return out


def worker_env(variant, pkg):
    env = dict(os.environ)
    env["PYTHONPATH"] = VERIF
    env["VF_PKG"] = pkg
    env["VF_VARIANT"] = variant
    if variant in ("rel", "sched"):
        env["MALLOC_PERTURB_"] = "128"  # fresh memory reads as 0x7f7f7f7f (3.4e38f), freed memory as 0x80808080
    env["MPLCONFIGDIR"] = os.path.join(B.CACHE, "mpl")
    env.pop("LD_PRELOAD", None)
    if variant == "asan":
        # libstdc++ is preloaded too so that exceptions thrown by extension modules are intercepted
        env["LD_PRELOAD"] = B.lib("libasan.so") + ":" + B.lib("libubsan.so") + ":" + B.lib("libstdc++.so.6")
        env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=127:" \
            "detect_stack_use_after_return=1:handle_segv=1:max_allocation_size_mb=3000"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=97"
        env["PYTHONMALLOC"] = "malloc"
    elif variant == "tsan":
        env["LD_PRELOAD"] = B.lib("libtsan.so") + ":" + B.lib("libstdc++.so.6")
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=0"
    return env


def wrap_cmd(variant, cmd):
    # the sanitizers' shadow mappings need a predictable address space
    if variant in ("asan", "tsan") and shutil.which("setarch"):
        return ["setarch", "-R"] + cmd
    return cmd


def run_workers(pid, mod, variant, pkg, seed, tier, ncases, cap, nworkers, only=None, zoo=None):
    """Returns list of per-worker result dicts (with 'violations', 'events', ...)."""
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=B.CACHE)
    procs = []
    hang = getattr(mod, "HANG", 300) * (4 if variant in ("asan", "tsan") else 1)
    env = worker_env(variant, pkg)
    if zoo:
        env["VF_ZOO"] = zoo
    try:
        for w in range(nworkers):
            d = os.path.join(tmp, str(w))
            os.makedirs(d)
            cmd = [B.PY, "-m", "vf.worker", pid, str(w), str(nworkers), str(seed), tier, str(ncases), str(cap), d]
            if only is not None:
                cmd.append(str(only))
            e = dict(env)
            if variant == "tsan":
                e["TSAN_OPTIONS"] += ":log_path=%s/tsan" % d
            elif variant == "asan":
                e["ASAN_OPTIONS"] += ":log_path=%s/asan" % d
                e["UBSAN_OPTIONS"] += ":log_path=%s/asan" % d
            log = open(os.path.join(d, "log"), "wb")
            p = subprocess.Popen(wrap_cmd(variant, cmd), env=e, stdout=log, stderr=subprocess.STDOUT, cwd=d, start_new_session=True)
            log.close()
            procs.append((w, p, d))
        results, running, t_end = [], list(procs), time.time() + cap + hang + 60
        stop = False
        while running:
            time.sleep(0.05)
            for item in list(running):
                w, p, d = item
                rc = p.poll()
                prog = _read_progress(d)
                if rc is None:
                    if stop:
                        _kill(p)
                    elif prog and time.time() - prog["t"] > hang:
                        _kill(p)
                        running.remove(item)
                        r = _load(d)
                        r["violations"].append(dict(case=prog["case"], message="case did not return within %d s" % hang, detail=None))
                        results.append(r)
                        stop = True
                    elif time.time() > t_end:
                        _kill(p)
                        running.remove(item)
                        r = _load(d)
                        r["error"] = "worker exceeded its time"
                        results.append(r)
                    continue
                running.remove(item)
                r = _load(d)
                r["variant"] = variant
                if not r.get("done") and not stop:
                    tail = _tail(os.path.join(d, "log"))
                    san = _sanlogs(d)
                    if rc == -signal.SIGKILL:
                        r["error"] = "worker killed (out of memory?)"
                    elif rc == 3 or prog is None:
                        r["error"] = "worker failed: rc %s\n%s\n%s" % (rc, tail, san)
                    else:
                        r["violations"].append(dict(case=prog["case"], message="interpreter died (exit status %s)%s" % (rc, brief(san + tail)),
                                                    detail=(san + "\n" + tail)[:6000]))
                if variant == "tsan":
                    r["tsan"] = _sanlogs(d, limit=None)
                results.append(r)
                if r["violations"]:
                    stop = True
        return results
    finally:
        for w, p, d in procs:
            if p.poll() is None:
                _kill(p)
        shutil.rmtree(tmp, ignore_errors=True)


def brief(text):
    """What a sanitizer said and where in freud."""
    out = ""
    for ln in text.splitlines():
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: \S+|Assertion '.*)", ln)
        if m:
            out += ": " + m.group(1)
            m = re.search(r"(freud/\S+:\d+)", ln)
            if m:
                return out + " at " + m.group(1)
        elif out:
            m = re.search(r"#\d+ .*?src/(freud/\S+:\d+)", ln)
            if m:
                return out + " at " + m.group(1)
    return out[:500]


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        pass


def _read_progress(d):
    try:
        f = os.path.join(d, "progress")
        return dict(t=os.stat(f).st_mtime, case=int(open(f).read() or "-1"))
    except (OSError, ValueError):
        return None


def _load(d):
    try:
        r = json.load(open(os.path.join(d, "result.json")))
    except (OSError, ValueError):
        r = {}
    for k, v in dict(violations=[], events={}, sigs=[], samples=[], cases=0, known={}, done=False, checks=0).items():
        r.setdefault(k, v)
    return r


def _tail(f, n=4000):
    try:
        return open(f, errors="replace").read()[-n:]
    except OSError:
        return ""


def _sanlogs(d, limit=6000):
    out = ""
    for f in sorted(os.listdir(d)):
        if f.startswith(("asan.", "tsan.")):
            out += open(os.path.join(d, f), errors="replace").read()
    return out if limit is None else out[:limit]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--phase", help="only the phase of this variant (rel, rel+extra, asan, ...)")
    a = ap.parse_args()
    pid, tier, seed = a.pid, a.tier, a.seed
    only = a.only
    only_variant = a.phase
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier, only, only_variant = rp["seed"], rp["tier"], rp["case"], rp.get("variant")
    t0 = time.time()
    mod = importlib.import_module("vf.checks." + pid)
    os.makedirs(B.CACHE, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    known = known_findings(pid)
    total = dict(cases=0, checks=0, events={}, sigs=set(), samples=[], known={}, builds=[])
    violations, errors = [], []
    nworkers = getattr(mod, "WORKERS", None) or min(8, os.cpu_count() or 8)
    if only is not None:
        nworkers = 1
    phases = mod.PHASES[tier] if isinstance(mod.PHASES, dict) else mod.PHASES
    for ph in phases:
        variant, dirs, ncases, cap = ph["variant"], ph.get("dirs"), ph["cases"], ph.get("cap", 90 if tier == "quick" else 900)
        label = variant + ("+" + ph["zoo"] if ph.get("zoo") else "")
        if only_variant and label != only_variant:
            continue
        if a.cases:
            ncases = a.cases
        try:
            try:
                pkg, info = B.build(variant, dirs, bool(ph.get("full")))
            except B.BuildError:
                # a check over all of freud goes on without the classes the repository's own build leaves out
                if ph.get("full") != "try":
                    raise
                if ph.get("zoo") == "extra":
                    print("NOTE: the left-out classes could not be built; their part is skipped")
                    total["events"]["left_out_classes_not_built"] = 1
                    continue
                pkg, info = B.build(variant, dirs)
        except B.BuildError as e:
            print("ERROR: build of variant %s failed\n%s" % (variant, e))
            sys.exit(2)
        total["builds"].append(info)
        tw = time.time()
        nw = 1 if only is not None else ph.get("workers", nworkers)
        results = run_workers(pid, mod, variant, pkg, seed, tier, ncases, cap, nw, only, ph.get("zoo"))
        info["workload_s"] = round(time.time() - tw, 1)
        for r in results:
            total["cases"] += r["cases"]
            total["checks"] += r["checks"]
            for k, v in r["events"].items():
                total["events"][k] = total["events"].get(k, 0) + v
            total["sigs"].update("%s:%s" % (label, s) if len(phases) > 1 else s for s in r["sigs"])
            for s in r["samples"]:
                if len(total["samples"]) < 6:
                    total["samples"].append(s)
            for k, v in r["known"].items():
                total["known"][k] = total["known"].get(k, 0) + v
            for v in r["violations"]:
                v["variant"] = label
                violations.append(v)
            if r.get("error"):
                errors.append(r["error"])
        if hasattr(mod, "post"):
            mod.post(ph, results, total, violations, known)
        if violations:
            break
    # known findings: only those listed in the committed file are excused
    for k, n in list(total["known"].items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (pid, known[k], n))
        else:
            violations.append(dict(case=-1, message="unlisted finding " + k, detail=None, variant=None))
    wall = round(time.time() - t0, 1)
    doc = dict(property=pid, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=total["cases"], distinct_nontrivial=len(total["sigs"]), rule=mod.RULE,
                             samples=total["samples"][:6], monitor_verdicts=total["checks"], events_observed=total["events"],
                             builds=total["builds"], errors=errors[:3]),
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=wall, violations=len(violations))
    with open(ev_path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    if violations:
        v = violations[0]
        rdir = os.path.join(B.CACHE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s-%s.json" % (pid, tier, seed, v.get("case")))
        with open(path, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, case=v.get("case"), variant=v.get("variant"), message=v["message"],
                           detail=v.get("detail")), f, indent=1, default=str)
        print("%s case %s: %s" % (pid, v.get("case"), v["message"]))
        if v.get("detail"):
            print(str(v["detail"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errors:
        print("ERROR:", errors[0])
        sys.exit(2)
    if only is None:
        for need, least in getattr(mod, "REQUIRED", {}).items():
            if total["events"].get(need, 0) < least:
                print("INCONCLUSIVE: monitor observed only %d '%s' events" % (total["events"].get(need, 0), need))
                sys.exit(2)
        if total["checks"] == 0:
            print("INCONCLUSIVE: no monitor verdicts")
            sys.exit(2)
    print("%s held on %d cases (%d distinct non-trivial), %d monitor verdicts, %.1f s: %s" % (
        pid, total["cases"], len(total["sigs"]), total["checks"], wall,
        " ".join("%s=%d" % kv for kv in sorted(total["events"].items()))))


if __name__ == "__main__":
    main()
