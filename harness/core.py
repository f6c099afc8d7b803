"""Shared machinery: run TLC, run the real code on scenarios, validate the
recorded observations against the TLA+ specification with TLC.

A property module (harness/pNN_*.py) defines a subclass of `Prop`.
"""
from __future__ import annotations

import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path("/repo")
TLA_CP = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Machinery(Exception):
    """A failure of the checking machinery itself (never a verdict)."""


class CaseTimeout(BaseException):
    """The code under test did not come back. Derived from BaseException so
    that the blanket `except Exception` handlers of pdr cannot swallow it."""


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------

def tlc(module, cfg, env=None, workdir=None, workers=1, heap="2g", extra=(),
        timeout=600):
    """run TLC; return (returncode, stdout)"""
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=workdir)
    cmd = [
        "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC" if workers == 1
        else "-XX:+UseParallelGC",
        "-XX:TieredStopAtLevel=1" if False else "-XX:+TieredCompilation",
        f"-DTLA-Library={SPEC}",
        "-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
        "-noGenerateSpecTE", "-config", str(cfg), *extra, str(module),
    ]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(
            cmd, env=e, cwd=workdir, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=timeout
        )
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as t:
        return -9, (t.stdout or b"").decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


TAGGED = re.compile(r'^"(SCN|REJECT|INFO) (.*)"$')


def tagged_lines(out):
    """decode lines written by PrintT("TAG " \\o ToJson(x))"""
    for line in out.splitlines():
        m = TAGGED.match(line)
        if m:
            yield m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc_stats(out):
    m = None
    for m in STATES.finditer(out):
        pass
    if m is None:
        return 0, 0
    return tuple(int(g.replace(",", "")) for g in m.groups())


def write_cfg(path, text):
    Path(path).write_text(text)
    return path


# --------------------------------------------------------------------------
# running the real code
# --------------------------------------------------------------------------

def _alarm(_s, _f):
    raise CaseTimeout()


_PROP = None


def _worker_init():
    signal.signal(signal.SIGALRM, _alarm)
    os.environ["MPLBACKEND"] = "Agg"


def _escaped(e):
    """the name of an exception that pdr let out where the harness expects
    none on any path, or "" when it is the harness's own.  It is pdr's when
    the innermost frame that belongs to either is one of pdr's."""
    for fr in reversed(traceback.extract_tb(e.__traceback__)):
        f = os.path.realpath(fr.filename)
        if f.startswith(str(VERIF) + os.sep):
            return ""
        if f.startswith("/repo/pdr/"):
            return f"escaped:{type(e).__name__}"
    return ""


def _run_one(job):
    ix, scn, workroot, limit = job
    d = Path(workroot) / f"s{ix}"
    d.mkdir(parents=True, exist_ok=True)
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            evs = _PROP.execute(scn, d)
        return ix, evs, None
    except CaseTimeout:
        return ix, _PROP.timeout_events(scn), None
    except Exception as e:
        kind = _escaped(e)
        return ix, None, (kind, traceback.format_exc())
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def _run_batch(jobs):
    return [_run_one(j) for j in jobs]


class Prop:
    id = "C00"
    module = None            # name of the trace-checking TLA+ module
    models = ()              # [(module, cfg-file-name or cfg text, label)]
    stateful = False         # trace module threads state between events
    case_limit = 20          # seconds for one scenario
    chunk_min = 40
    level_note = ""
    assumptions = ()

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{self.id}-{seed}")

    # ---- hooks for subclasses
    def from_model(self, scns):
        """list of scenarios from the model's SCN lines"""
        return scns

    def random_scenarios(self):
        return []

    def execute(self, scn, d):
        raise NotImplementedError

    def timeout_events(self, scn):
        return [dict(scn=scn, obs={"kind": "timeout"})]

    def canary(self, event, rng):
        """a corrupted copy of an event that must be rejected, or None"""
        return None

    def known_key(self, events, reject):
        """a stable string identifying the failing input (known findings)"""
        return ""

    def nontrivial(self, events):
        return True

    def prepare(self, d):
        """called once in the parent before the scenarios are run"""


def canary_sessions(prop, sessions, n, rng):
    out = []
    order = list(range(len(sessions)))
    rng.shuffle(order)
    for ix in order:
        if len(out) >= n:
            break
        evs = sessions[ix]
        if not evs:
            continue
        c = prop.canary(json.loads(json.dumps(evs)), rng)
        if c is not None:
            if isinstance(c, dict):
                c = [c]
            out.append((ix, c))
    return out


def validate(prop, sessions, workdir):
    """Validate sessions with TLC. Returns (rejects, nstates, outs):
    rejects is {session index: {"ev": index in session, "why": [...]}}"""
    nchunks = max(1, min(NPROC, len(sessions) // prop.chunk_min or 1))
    chunks = [list() for _ in range(nchunks)]
    sizes = [0] * nchunks
    order = sorted(
        (i for i in range(len(sessions)) if sessions[i]),
        key=lambda i: -len(json.dumps(sessions[i])) if len(sessions) < 20000
        else 0
    )
    for i in order:
        k = sizes.index(min(sizes))
        chunks[k].append(i)
        sizes[k] += len(json.dumps(sessions[i])) + 200
    jobs = [(prop, sessions, c, workdir, n) for n, c in enumerate(chunks) if c]
    from concurrent.futures import ThreadPoolExecutor

    rejects, generated, outs = {}, 0, []
    with ThreadPoolExecutor(NPROC) as ex:
        for rej, gen, out in ex.map(lambda j: _validate_chunk(*j), jobs):
            rejects.update(rej)
            generated += gen
            outs.append(out)
    return rejects, generated, outs


EVALERR = re.compile(
    r"(Attempted to|The first argument of|TLC threw|evaluating|"
    r"argument of|Evaluating)", re.I
)


def _validate_chunk(prop, sessions, chunk, workdir, n):
    rejects, gen, outs = {}, 0, []
    todo = list(chunk)
    rounds = 0
    while todo:
        rounds += 1
        path = Path(workdir) / f"trace-{n}-{rounds}.ndjson"
        where = []
        with open(path, "w") as f:
            for si in todo:
                for ei, ev in enumerate(sessions[si]):
                    rec = dict(ev)
                    rec["sid"] = si
                    rec["eid"] = ei
                    rec["first"] = ei == 0
                    f.write(json.dumps(rec) + "\n")
                    where.append((si, ei))
        cfg = Path(workdir) / f"trace-{n}-{rounds}.cfg"
        cfg.write_text(
            "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"
            "POSTCONDITION AllConsumed\n"
            + getattr(prop, "trace_cfg", "")
        )
        rc, out = tlc(
            SPEC / f"{prop.module}.tla", cfg, env={"TRACE": str(path)},
            workdir=str(workdir), heap="3g", timeout=800,
        )
        outs.append(out)
        gen += tlc_stats(out)[0]
        for tag, rec in tagged_lines(out):
            if tag == "REJECT":
                rejects.setdefault(
                    rec["sid"], {"ev": rec["eid"], "why": rec["why"]}
                )
        if rc == 0 and "No error has been found" in out:
            break
        # an evaluation error: find the event at which it happened
        at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)]
        if not at or "Error:" not in out or rounds > 60:
            raise Machinery(f"TLC failed on {path} (rc={rc}):\n{out[-3000:]}")
        bad = max(at) - 1
        if bad >= len(where) or "OutOfMemory" in out or "StackOverflow" in out:
            raise Machinery(f"TLC failed on {path} (rc={rc}):\n{out[-3000:]}")
        si, ei = where[bad]
        msg = re.search(r"Error: (.*?)(?:\n\n|Error: The behavior)", out, re.S)
        rejects.setdefault(si, {
            "ev": ei,
            "why": ["outside-the-specification's-domain"],
            "detail": (msg.group(1) if msg else out[-800:])[:800],
        })
        # the part before the error has been validated; go on after it
        todo = todo[todo.index(si) + 1:]
    return rejects, gen, "\n".join(outs)


def load_known(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    data = json.loads(p.read_text())
    return [k for k in data.get("known", []) if k["property"] == pid]


def run(prop, replay=None):
    t0 = time.time()
    global _PROP
    _PROP = prop
    workdir = Path(tempfile.mkdtemp(prefix=f"verif-{prop.id}-"))
    try:
        return _run(prop, workdir, t0, replay)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def run_models(prop, workdir):
    """exhaustive exploration of the bounded models"""
    from concurrent.futures import ThreadPoolExecutor

    states = transitions = 0
    scns, notes = [], []

    def one(m):
        module, cfgtext, label = m[:3]
        opts = m[3] if len(m) > 3 else {}
        cfg = workdir / f"{module}-{label}.cfg"
        cfg.write_text(cfgtext)
        return module, label, tlc(
            SPEC / f"{module}.tla", cfg, workdir=str(workdir),
            workers=opts.get("workers", 4), heap=opts.get("heap", "6g"),
            env=dict(opts.get("env", {}), SEED=str(prop.seed)),
            extra=opts.get("extra", ()),
            timeout=opts.get("timeout", 600),
        )

    with ThreadPoolExecutor(4) as ex:
        for module, label, (rc, out) in ex.map(one, prop.all_models()):
            if rc != 0 or "No error has been found" not in out:
                if "-simulate" in out or "Progress: " in out and rc == 0:
                    pass
                else:
                    raise Machinery(
                        f"model {module}/{label}: TLC rc={rc}\n{out[-4000:]}"
                    )
            gen, dist = tlc_stats(out)
            states += dist
            transitions += gen
            mine = [r for t, r in tagged_lines(out) if t == "SCN"]
            scns += mine
            notes.append({
                "model": f"{module}/{label}", "distinct_states": dist,
                "states_generated": gen, "scenarios": len(mine),
            })
    return states, transitions, scns, notes


def _all_models(self):
    return self.models


Prop.all_models = _all_models


def _run(prop, workdir, t0, replay):
    rng = random.Random(f"{prop.id}-canary-{prop.seed}")
    if replay is not None:
        states = transitions = 0
        notes = []
        scenarios = [replay["scenario"]]
        n_model = 0
    else:
        states, transitions, scns, notes = run_models(prop, workdir)
        if prop.models and not any(n["scenarios"] for n in notes):
            raise Machinery("the models emitted no scenario")
        model_scns = prop.from_model(scns)
        n_model = len(model_scns)
        scenarios = model_scns + list(prop.random_scenarios())
    prop.prepare(workdir)
    t_model = time.time() - t0
    # ---- the real code
    scratch = workdir / "run"
    scratch.mkdir()
    jobs = [(i, s, str(scratch), prop.case_limit)
            for i, s in enumerate(scenarios)]
    sessions = [None] * len(jobs)
    escaped = {}

    def take(ix, evs, err):
        if err and not err[0]:
            raise Machinery(f"harness failed on {scenarios[ix]}:\n{err[1]}")
        if err:
            escaped[ix] = err
        sessions[ix] = [] if err else evs

    if len(jobs) < 4:
        for r in map(_run_one, jobs):
            take(*r)
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(NPROC, initializer=_worker_init) as pool:
            k = max(1, min(16, len(jobs) // 64))
            batches = [jobs[i:i + k] for i in range(0, len(jobs), k)]
            it = pool.imap_unordered(_run_batch, batches)
            try:
                for _ in batches:
                    for r in it.next(timeout=8 * prop.case_limit + 60):
                        take(*r)
            except mp.TimeoutError:
                # a worker was ended (by a fault or by the memory guard)
                # while the code under test ran
                for ix, evs in enumerate(sessions):
                    if evs is None:
                        escaped[ix] = ("no-answer", "")
                        sessions[ix] = []
            finally:
                pool.terminate()
    t_run = time.time() - t0 - t_model
    # ---- canaries: corrupted copies of real observations
    ncan = 0 if replay is not None else 12
    canaries = canary_sessions(prop, sessions, ncan, rng)
    prop.n_real = len(sessions)
    everything = sessions + [c for _, c in canaries]
    rejects, generated, outs = validate(prop, everything, workdir)
    for ix, err in escaped.items():
        rejects[ix] = {"ev": 0, "why": [err[0]], "trace": err[1]}
    t_val = time.time() - t0 - t_model - t_run
    # ---- verdicts
    known = load_known(prop.id)
    violations, found = [], {}
    for si in sorted(k for k in rejects if k < len(sessions)):
        key = "" if si in escaped else prop.known_key(
            sessions[si], rejects[si])
        hit = [k for k in known if key and key == k["key"]]
        if hit:
            found.setdefault(key, hit[0])
        else:
            violations.append(si)
    rdir = VERIF / "evidence" / "replay"
    lines = []
    if violations:
        rdir.mkdir(parents=True, exist_ok=True)
        for si in violations[:5]:
            p = rdir / f"{prop.id}-{si}.json"
            p.write_text(json.dumps({
                "property": prop.id, "seed": prop.seed, "tier": prop.tier,
                "scenario": scenarios[si], "events": sessions[si],
                "reject": rejects[si],
            }, indent=1))
            why = ",".join(map(str, rejects[si]["why"]))[:200]
            print(f"  rejected: session {si} event {rejects[si]['ev']}: {why}")
            lines.append(
                f"VIOLATION property={prop.id} replay={p}"
            )
    for key, k in found.items():
        print(f"KNOWN-FINDING: property={prop.id} {k['what']}")
    missed = [
        i for i, _ in enumerate(canaries)
        if len(sessions) + i not in rejects
    ]
    if replay is None:
        nontriv = len({
            json.dumps(e, sort_keys=True) for e in sessions
            if e and prop.nontrivial(e)
        })
        ev = {
            "property": prop.id, "tier": prop.tier, "seed": prop.seed,
            "level": "model_checking",
            "coverage": {
                "states": states, "transitions": transitions,
                "traces_validated_against_impl": len(sessions),
                "events_validated": sum(map(len, sessions)),
                "distinct_nontrivial_sessions": nontriv,
                "model_scenarios": n_model,
                "random_scenarios": len(sessions) - n_model,
                "models": notes,
                "trace_spec_states": generated,
                "canaries_rejected": len(canaries) - len(missed),
                "canaries": len(canaries),
                "rejected_sessions": len(
                    [k for k in rejects if k < len(sessions)]),
                "known_findings_hit": sorted(found),
                "seconds": {"model": round(t_model, 1),
                            "code": round(t_run, 1),
                            "validate": round(t_val, 1)},
                "samples": [
                    sessions[i] for i in sorted(
                        rng.sample(range(len(sessions)),
                                   min(2, len(sessions)))
                    )
                ],
            },
            "assumptions": list(prop.assumptions),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop.id}.json").write_text(
            json.dumps(ev, indent=1)
        )
        print(
            f"{prop.id}: model states={states} transitions={transitions} "
            f"sessions={len(sessions)} events={sum(map(len, sessions))} "
            f"canaries={len(canaries)-len(missed)}/{len(canaries)} "
            f"t={t_model:.1f}+{t_run:.1f}+{t_val:.1f}s"
        )
    if violations:
        print(f"{len(violations)} sessions violate the specification")
        for line in lines:
            print(line)
        return 1
    if missed:
        print("canary not rejected:",
              json.dumps(canaries[missed[0]][1])[:3000])
        raise Machinery(f"{len(missed)} canaries were not rejected")
    if replay is None and len(canaries) == 0:
        raise Machinery("no canary could be made")
    return 0
