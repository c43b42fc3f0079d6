#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property from /repo's source.

exit 0: held on everything analysed (known findings are printed)
exit 1: VIOLATION line
exit 2: the check could not be carried out (public entry point gone, internal error)
"""
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
ROOT = os.environ.get("VERIF_REPO", "/repo")


def setup():
    sys.setrecursionlimit(50000)
    import threading
    threading.stack_size(512 * 1024 * 1024)


def modules():
    import sa.props
    return [importlib.import_module("sa.props." + m.name) for m in sorted(pkgutil.iter_modules(sa.props.__path__), key=lambda m: m.name)]


def collect(prop):
    """(obligations, rules) registered for a property"""
    obs, rules = [], []
    for m in modules():
        for o in getattr(m, "OBS", []):
            ps = o.prop if isinstance(o.prop, (list, tuple)) else [o.prop]
            if prop in ps:
                obs.append((m.__name__, o.name))
        for r in getattr(m, "RULES", []):
            if r[0] == prop:
                rules.append((m.__name__, r[1]))
    return obs, rules


# properties that quantify over every public function: every obligation's client is also a witness for them, in a reduced mode
MODES = {"N01": "frame", "N02": "integer", "N04": "failure"}


def witnesses(prop, obs):
    k = MODES.get(prop)
    if not k:
        return []
    have = {n for _, n in obs}
    on = {"frame": lambda o: o.opts.get("frame", True), "failure": lambda o: o.opts.get("aborts", True), "integer": lambda o: o.opts.get("integer", True)}[k]
    return [(k, m.__name__, o.name) for m in modules() for o in getattr(m, "OBS", []) if o.name not in have and on(o)]


def work(job, conn):
    """one obligation or rule, in a process of its own (nothing it declares can reach another one)"""
    kind, mod, name, tier, seed, limit = job
    import threading
    box = {}

    def go():
        try:
            from sa.oblig import load_program, run_ob, AnchorMissing
            prog = load_program(ROOT)
            m = importlib.import_module(mod)
            if kind != "rule":
                o = [o for o in m.OBS if o.name == name][0]
                r = run_ob(prog, o, tier, seed, only=None if kind == "ob" else kind)
                if kind == "integer" and r.violations:
                    # a difference that real arguments show as well is no matter of number types
                    plain = {p for p, _ in run_ob(prog, o, tier, seed, only="real").violations}
                    r.notes += ["%s: differs for real arguments too" % p for p, _ in r.violations if p in plain]
                    r.violations = [v for v in r.violations if v[0] not in plain]
                    r.status = "violated" if r.violations else "held"
                if kind != "ob" and (not r.frames and r.status == "held" or r.status == "vacuous"):
                    r.status = "not-concerned"
                box["r"] = dict(name=name, kind=kind, anchor=list(o.anchor), status=r.status, notes=r.notes, violations=r.violations,
                                visited=sorted(r.visited), pairs=r.pairs, identical=r.identical, agree=r.agree, undecided=r.undecided,
                                interps=r.interps, wall=round(r.wall, 2))
            else:
                f = [x for x in m.RULES if x[1] == name][0][2]
                t0 = time.time()
                r = f(prog)
                r.update(name=name, kind="rule", wall=round(time.time() - t0, 2))
                for k, d in (("anchor", []), ("notes", []), ("violations", []), ("visited", []), ("sites", 0)):
                    r.setdefault(k, d)
                r.setdefault("status", "violated" if r["violations"] else "held")
                box["r"] = r
        except AnchorMissing as e:
            box["r"] = failed(job, "anchor", "public entry point not found: %s" % e)
        except BaseException as e:
            box["r"] = failed(job, "error", "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:])
    setup()
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join()
    conn.send(box.get("r") or failed(job, "error", "no result"))
    conn.close()
    os._exit(0)


def failed(job, status, *notes):
    return dict(name=job[2], status=status, notes=list(notes), violations=[], visited=[], kind=job[0], anchor=[])


def run_jobs(jobs, nw, total=None):
    """a process per job, at most nw at a time, each ended at its time limit and all of them at the total one"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    cx = mp.get_context("fork")
    todo, live, out = list(enumerate(jobs))[::-1], {}, [None] * len(jobs)
    begun = time.time()
    while todo or live:
        if total and time.time() - begun > total:
            for i, j in todo:
                out[i] = failed(j, "undecided", "not analysed: the check's %ds were used up" % total)
            todo = []
        while todo and len(live) < nw:
            i, j = todo.pop()
            rd, wr = cx.Pipe(False)
            pr = cx.Process(target=work, args=(j, wr), daemon=True)
            pr.start()
            wr.close()
            live[rd] = (i, j, pr, time.time())
        for rd in wait(list(live), 1.0):
            i, j, pr, t = live.pop(rd)
            try:
                out[i] = rd.recv()
            except (EOFError, OSError):
                out[i] = failed(j, "error", "the analysis process died")
            rd.close()
            pr.join()
        for rd in list(live):
            i, j, pr, t = live[rd]
            if time.time() - t > j[5] or total and time.time() - begun > total:
                pr.kill()
                pr.join()
                rd.close()
                del live[rd]
                out[i] = failed(j, "undecided", "analysis exceeded %ds" % j[5])
    return out


def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def is_known(prop, ob, path, msg, kf):
    for k in kf:
        if k.get("status") == "open" and k["property"] == prop and k["obligation"] == ob and k["observation"] == path \
                and all(s in msg for s in k.get("contains", [])):
            return k
    return None


def main():
    setup()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    obs, rules = collect(prop)
    if not obs and not rules:
        print("no check registered for", prop)
        return 2
    limit = 300 if tier == "quick" else 800
    jobs = [("ob", m, n, tier, seed, limit) for m, n in obs] + [("rule", m, n, tier, seed, limit) for m, n in rules]
    jobs += [(k, m, n, tier, seed, limit) for k, m, n in witnesses(prop, obs)]
    for m in {j[1] for j in jobs}:
        importlib.import_module(m)
    from sa.oblig import load_program
    load_program(ROOT)
    results = run_jobs(jobs, min(8, len(jobs), int(os.environ.get("VERIF_JOBS", "8"))), 720 if tier == "quick" else 6 * 3600)
    kf = known_findings()
    viol, known = [], []
    for r in results:
        for path, msg in r["violations"]:
            k = is_known(prop, r["name"], path, msg, kf)
            (known if k else viol).append((r, path, msg, k))
    stat = {}
    for r in results:
        stat[r["status"]] = stat.get(r["status"], 0) + 1
    funcs = sorted({v for r in results for v in r["visited"]})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", "%s.violations.json" % prop)
    from sa.oblig import locate
    prog = load_program(ROOT)
    details = []
    for r, path, msg, k in viol:
        loc = [locate(prog, a) or a for a in r.get("anchor", [])]
        details.append(dict(obligation=r["name"], where=loc, observation=path, detail=msg))
    if viol:
        json.dump(dict(property=prop, violations=details, replay="cd /verif && python3 check.py %s" % prop), open(rep, "w"), indent=1)
    elif os.path.exists(rep):
        os.remove(rep)
    n_ob = sum(1 for r in results if r["kind"] != "rule")
    held = sum(1 for r in results if r["status"].startswith("held"))
    ev = dict(property=prop, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(
                  explanation="Static analysis of the current source of %s (never imported or run). %d specification obligations (value graph of a "
                              "public-API client compared with the value graph of its specification) and %d source rules; %d functions of the package were "
                              "analysed. Status: %s." % (ROOT, n_ob, len(results) - n_ob, len(funcs), ", ".join("%s %d" % kv for kv in sorted(stat.items()))),
                  obligations=len(results), discharged=held,
                  observations=sum(r.get("pairs", 0) for r in results),
                  observations_with_identical_normal_form=sum(r.get("identical", 0) for r in results),
                  observations_equal_by_identity_test=sum(r.get("agree", 0) for r in results),
                  observations_undecided=sum(r.get("undecided", 0) for r in results),
                  term_interpretations=sum(r.get("interps", 0) for r in results),
                  rule_sites=sum(r.get("sites", 0) for r in results),
                  functions_analysed=funcs,
                  samples=[dict(name=r["name"], anchor=r["anchor"], status=r["status"], observations=r.get("pairs", r.get("sites", 0)),
                                notes=r["notes"][:3]) for r in results][:60]),
              assumptions=["library model of numpy/scipy/builtins as described in DESIGN.md", "real arithmetic in place of floating point",
                           "identity test of differing normal forms is probabilistic"])
    json.dump(ev, open(os.path.join(HERE, "evidence", "%s.json" % prop), "w"), indent=1)
    for r in results:
        print("%-26s %-14s %s" % (r["name"], r["status"], "; ".join(r["notes"][:2])[:300]))
    for r, path, msg, k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        for d in details:
            print("  %s: %s: %s: %s" % (d["obligation"], ", ".join(d["where"]), d["observation"], d["detail"][:500]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    gone = [r for r in results if r["status"] == "anchor"]
    broken = [r for r in results if r["status"] == "error"]
    for r in gone + broken:
        print("CHECK-ERROR", r["name"], "\n".join(r["notes"]))
    for r in results:
        if r["status"] in ("undecided", "vacuous", "spec-error"):
            print("UNDECIDED", r["name"])
    if gone or len(broken) == len(results):
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
