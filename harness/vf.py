"""Shared machinery: TLC runs, parallel maps, evidence, violations, findings."""
import contextlib
import hashlib
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
JAR = "/opt/veriftools/tla"


def jars():
    return ":".join(str(p) for p in sorted(Path(JAR).glob("*.jar")))


class Ctx:
    def __init__(self, prop, tier, seed, level, technique=""):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"vf_{prop}_"))
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.distinct = set()
        self.extra = {}
        self.violations = {}
        self.found = {}
        self.rule = ""
        self.known = {}
        f = ROOT / "known_findings.txt"
        if f.exists():
            for ln in f.read_text().splitlines():
                m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", ln)
                if m and m.group(1) == prop:
                    self.known[m.group(2)] = m.group(3)

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # -- coverage ----------------------------------------------------------
    def trace(self, n=1):
        self.traces += n

    def case(self, desc):
        """one evaluated case; distinct ones are counted by content"""
        self.evaluations += 1
        self.distinct.add(hashlib.sha1(json.dumps(desc, sort_keys=True, default=str)
                                       .encode()).hexdigest()[:16])

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    # -- verdicts ----------------------------------------------------------
    def violation(self, key, detail, replay=None):
        """key identifies the failing input / site; known keys are findings"""
        if key in self.known:
            self.found.setdefault(key, []).append(detail)
            return
        self.violations.setdefault(key, []).append((detail, replay))

    def finish(self):
        cov = {"samples": self.samples or ["(none)"], **self.extra}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
            if self.evaluations:
                cov.update(evaluations=self.evaluations,
                           distinct_cases=len(self.distinct))
            if self.rule:
                cov["rule"] = self.rule
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                       rule=self.rule or "see DESIGN.md", states=self.states,
                       transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
        cov["known_findings_seen"] = {k: len(v) for k, v in self.found.items()}
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, wall_s=round(time.time() - self.t0, 2))
        d = ROOT / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k, v in self.found.items():
            print(f"KNOWN-FINDING: property={self.prop} {k}: {self.known[k]} ({len(v)} cases)")
        if not self.violations:
            n = self.traces or self.evaluations
            print(f"OK property={self.prop} tier={self.tier} states={self.states} "
                  f"replayed={self.traces} cases={self.evaluations} "
                  f"wall={time.time() - self.t0:.1f}s")
            if not n and not self.states:
                print("nothing was explored", file=sys.stderr)
                return 2
            return 0
        rd = ROOT / "replays"
        rd.mkdir(exist_ok=True)
        for n, (k, lst) in enumerate(sorted(self.violations.items())):
            if n >= 5:
                break
            f = rd / f"{self.prop}_{re.sub(r'[^A-Za-z0-9_.-]', '_', k)[:60]}.json"
            f.write_text(json.dumps(dict(property=self.prop, key=k, seed=self.seed,
                                         tier=self.tier, count=len(lst),
                                         cases=[dict(detail=d, replay=r) for d, r in lst[:5]]),
                                    indent=1, default=str))
            print(f"VIOLATION property={self.prop} replay={f}")
            print(f"  {k}: {str(lst[0][0])[:600]}   ({len(lst)} cases)")
        return 1

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, cfg_text=None, workers=8, simulate=None, depth=None,
            env=None, heap="6g", timeout=700, deadlock=True, seed=None, count=True,
            expect_error=False):
        """run TLC on a module of spec/; returns the output text"""
        if simulate and workers > 1:
            # (behaviours of several workers come in no reproducible order: one process each)
            from concurrent.futures import ThreadPoolExecutor
            base = self.seed if seed is None else seed
            with ThreadPoolExecutor(workers) as ex:
                outs = list(ex.map(lambda k: self.tlc(module, cfg, cfg_text, 1, simulate, depth, env, "2g", timeout, deadlock,
                                                      base * 100 + k, count, expect_error), range(workers)))
            return "\n".join(outs)
        d = Path(tempfile.mkdtemp(prefix="tlc_", dir=self.scratch))
        if cfg_text is not None:
            cfg = d / (module + "_run.cfg")
            cfg.write_text(cfg_text)
        else:
            cfg = SPEC / cfg
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-XX:TieredStopAtLevel=4",
               f"-DTLA-Library={SPEC}", "-cp", jars(), "tlc2.TLC", "-config", str(cfg),
               "-metadir", str(d / "meta"), "-workers", str(workers), "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
            cmd += ["-seed", str(seed if seed is not None else self.seed)]
        cmd.append(str(SPEC / (module + ".tla")))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = p.stdout
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        if m and count:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        elif count:
            m = re.findall(r"([\d,]+) states (?:checked|generated)", out)
            if m:
                self.states += int(m[-1].replace(",", ""))
                self.transitions += int(m[-1].replace(",", ""))
        bad = ("Error:" in out) or p.returncode not in (0,)
        if bad and not expect_error:
            i = max(0, out.find("Error:"))
            raise RuntimeError(f"TLC failed on {module}:\n" + out[i:i + 2500] + "\n...\n" + out[-1500:])
        shutil.rmtree(d, ignore_errors=True)
        return out

    def model_check(self, module, cfg=None, **k):
        """an explicit-state check of the specification itself"""
        return self.tlc(module, cfg, **k)

    def behaviours(self, out, tag="BEH"):
        """values printed by PrintT(<<tag, ToJson(...)>>)"""
        return printed(out, tag)

    def validate(self, module, records, cfg_text, tag="FAIL", workers=1, shards=1, **k):
        """hand recorded observations to a TLA+ specification that judges them"""
        fails = []
        if shards > 1 and len(records) > 4 * shards:
            from concurrent.futures import ThreadPoolExecutor
            q = -(-len(records) // shards)
            parts = [(i, records[i:i + q]) for i in range(0, len(records), q)]
            with ThreadPoolExecutor(shards) as ex:
                res = list(ex.map(lambda a: self.validate(module, a[1], cfg_text, tag, workers, 1, **dict(k)), parts))
            return [[f[0] + i, *f[1:]] for (i, _), r in zip(parts, res) for f in r]
        fd, f = tempfile.mkstemp(prefix=module, suffix=".ndjson", dir=self.scratch)
        os.close(fd)
        f = Path(f)
        with open(f, "w") as fh:
            for r in records:
                fh.write(json.dumps(r, default=str) + "\n")
        env = dict(k.pop("env", None) or {})
        env["TRACE"] = f
        k.setdefault("deadlock", False)
        out = self.tlc(module, cfg_text=cfg_text, env=env, workers=workers, **k)
        m = re.findall(r'<<"JUDGED", (\d+)>>', out)
        if not m or int(m[-1]) != len(records):
            raise RuntimeError(f"{module}: judged {m} of {len(records)} records\n" + out[-3000:])
        for x in re.findall(r'<<"%s", (.*)>>' % tag, out):
            fails.append([_tla(v) for v in _split(x)])
        f.unlink()
        return fails


def _split(x):
    """top level comma split of a printed TLA+ tuple body"""
    out, depth, curs, q = [], 0, "", False
    for ch in x:
        if ch == '"':
            q = not q
        if not q:
            if ch in "<{[(":
                depth += 1
            elif ch in ">}])":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(curs.strip())
                curs = ""
                continue
        curs += ch
    out.append(curs.strip())
    return out


def _tla(v):
    if v.startswith('"'):
        return v.strip('"')
    try:
        return int(v)
    except ValueError:
        return v


def printed(out, tag="BEH"):
    res = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


# --------------------------------------------------------------- parallel map
class Err:
    def __init__(self, item, text):
        self.item, self.text = item, text


def pmap(fn, items, n=8, timeout=None, total=None):
    """fork-based map; results in order; exceptions become Err objects.

    total: give up handing out new items after so many seconds (None for those)
    """
    items = list(items)
    if not items:
        return []
    n = max(1, min(n, len(items)))
    t0 = time.time()
    sys.stdout.flush()
    sys.stderr.flush()
    d = tempfile.mkdtemp(prefix="vf_pmap_")
    pids = []
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                with open(f"{d}/{k}", "wb") as fh:
                    for j in range(k, len(items), n):
                        if total is not None and time.time() - t0 > total:
                            break
                        try:
                            r = _timed(fn, items[j], timeout)
                        except BaseException as e:  # noqa
                            r = Err(str(items[j])[:300], "".join(
                                traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
                        try:
                            b = pickle.dumps((j, r))
                        except Exception as e:
                            b = pickle.dumps((j, Err(str(items[j])[:300], repr(e))))
                        fh.write(b)
                        fh.flush()
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    res = [None] * len(items)
    for k in range(n):
        if not os.path.exists(f"{d}/{k}"):
            continue
        with open(f"{d}/{k}", "rb") as fh:
            while True:
                try:
                    j, r = pickle.load(fh)
                except EOFError:
                    break
                except Exception:
                    break
                res[j] = r
    shutil.rmtree(d, ignore_errors=True)
    return res


class Timeout(Exception):
    pass


def _timed(fn, item, timeout):
    if not timeout:
        return fn(item)

    def h(*a):
        raise Timeout(f"no result after {timeout} s")
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(int(timeout))
    try:
        return fn(item)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def silent():
    """drop everything the code under test prints"""
    import io
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


def approx(a, b, rtol=1e-9, atol=1e-12):
    """equality of nested numeric structures, NaN equal NaN"""
    import numpy as np
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
