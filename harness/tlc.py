"""Running TLC and reading what it prints."""
import functools
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JARS = [os.path.join(TLA, "tla2tools.jar"), os.path.join(TLA, "CommunityModules-deps.jar")]


class TlcError(Exception):
    pass


@functools.lru_cache(maxsize=None)
def classdir(scratch):
    """Directory with the compiled BigInteger override of module Rat."""
    built = os.path.join(VERIF, "build", "classes")
    src = os.path.join(VERIF, "java", "Rat.java")
    cls = os.path.join(built, "Rat.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return built
    out = os.path.join(scratch, "classes")
    os.makedirs(out, exist_ok=True)
    subprocess.run(["javac", "-cp", JARS[0], "-d", out, src], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return out


def start(module, cfg, scratch, override=True, env=None, workers=1, heap="3g", extra=(), name=None):
    """Start TLC; returns a handle for finish()."""
    name = name or os.path.basename(cfg).rsplit(".", 1)[0]
    meta = tempfile.mkdtemp(prefix="meta_", dir=scratch)
    cp = list(JARS)
    if override:
        cp.append(classdir(scratch))
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap,
           "-Xss64m", "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC, "-cp", ":".join(cp), "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    log = open(os.path.join(scratch, "tlc_%s_%s.log" % (name, os.path.basename(meta))), "w+")
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=scratch, env=e)
    return dict(p=p, log=log, meta=meta, cmd=cmd, t=time.time(), name=name)


def finish(h, timeout=None, partial=False):
    """-> dict(rc, out, states, distinct, depth, secs, cut).  partial: when time runs out,
    return what was printed so far (cut = True) instead of raising."""
    cut = False
    try:
        h["p"].wait(timeout)
    except subprocess.TimeoutExpired:
        h["p"].kill()
        h["p"].wait()
        if not partial:
            raise TlcError("%s: TLC timed out" % h["name"])
        cut = True
    h["log"].seek(0)
    out = h["log"].read()
    h["log"].close()
    shutil.rmtree(h["meta"], ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    r = dict(rc=h["p"].returncode, out=out, secs=time.time() - h["t"], name=h["name"], cut=cut,
             states=int(m[-1][0].replace(",", "")) if m else 0,
             distinct=int(m[-1][1].replace(",", "")) if m else 0)
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    r["depth"] = int(m.group(1)) if m else 0
    r["ok"] = "Model checking completed. No error has been found." in out and r["rc"] == 0
    return r


_FAIL = re.compile(r'^<<"FAIL", (\d+), "([^"]*)", "([^"]*)", "([^"]*)", "([^"]*)", "([^"]*)", "([^"]*)">>', re.M)


def fails(out, cut=False):
    """The FAIL records a Trace run printed (TLC may wrap long tuples over lines)."""
    flat = re.sub(r"\n\s+", " ", out).replace("<< ", "<<").replace(" >>", ">>")
    res = [dict(line=int(a), sid=b, o=c, clause=d, kind=e, want=f, got=g)
           for a, b, c, d, e, f, g in _FAIL.findall(flat)]
    if not cut and flat.count('<<"FAIL"') != len(res):
        raise TlcError("unreadable FAIL record:\n" + "\n".join(
            x for x in flat.splitlines() if '"FAIL"' in x and not _FAIL.match(x))[:2000])
    return res


def counts(out):
    flat = re.sub(r"\n\s+", " ", out).replace("<< ", "<<")
    m = re.search(r'<<"COUNT", (.*?)>>', flat)
    d = {}
    if m:
        for k, v in re.findall(r'(\w[\w-]*) \|-> (\d+)', m.group(1)):
            d[k] = int(v)
        for k, v in re.findall(r'"([\w-]+)" :> (\d+)', m.group(1)):
            d[k] = int(v)
    return d
