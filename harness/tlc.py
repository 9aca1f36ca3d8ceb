"""Running TLC on a specification of /verif/spec and reading what it printed.

Protocol: a specification reports cases with PrintT("@@" \\o ToJson(record)).
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLC_JARS = ":".join([
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
])


class MachineryError(Exception):
    """The check itself could not run (exit code 2, never a verdict)."""


class TLCResult:
    def __init__(self):
        self.records = []
        self.generated = 0
        self.distinct = 0
        self.initial = 0
        self.error = None
        self.output = ""
        self.cmd = ""
        self.coverage = {}


def scratch():
    base = os.environ.get("VERIF_WORK") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="tlc.", dir=base)


def run_tlc(module, cfg_text, *, consts=None, defs="", env=None, simulate=None, depth=None, seed=None,
            workers="auto", timeout=600, files=None, coverage=False,
            heap="3g", must_succeed=True):
    """Run TLC on spec/<module>.tla with the given configuration text.

    consts: constant values (Python data, or TLA+ text after "="), put in a
    generated MC module that extends the specification; defs: extra TLA+ text
    for that module.
    files: extra files (name -> text) put beside the module in scratch.
    """
    d = scratch()
    if consts is not None:
        files = dict(files or {})
        top = "MC_" + module
        body = [f"---- MODULE {top} ----", f"EXTENDS {module}", defs]
        for k, v in consts.items():
            txt = v[1:] if isinstance(v, str) and v.startswith("=") else tla(v)
            body.append(f"c_{k} == {txt}")
            cfg_text += f"CONSTANT {k} <- c_{k}\n"
        body.append("====")
        files[top + ".tla"] = "\n".join(body) + "\n"
        module = top
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    with open(os.path.join(d, module + ".cfg"), "w") as fh:
        fh.write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", f"-Xmx{heap}",
           "-cp", TLC_JARS, "tlc2.TLC", "-config", module + ".cfg",
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta")]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += ["-workers", "1"]
    else:
        cmd += ["-workers", str(workers)]
        cmd += ["-fp", "1"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += [module + ".tla"]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e["JAVA_TOOL_OPTIONS"] = f"-Djava.io.tmpdir={d}"
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC timed out on {module}") from exc
    out = p.stdout.decode("utf-8", "replace")
    r = TLCResult()
    r.cmd = " ".join(cmd)
    rest = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            r.records.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    r.output = "\n".join(rest)
    for m in re.finditer(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", r.output):
        r.generated = int(m.group(1).replace(",", ""))
        r.distinct = int(m.group(2).replace(",", ""))
    if simulate:
        m = re.findall(r"(\d[\d,]*) states checked", r.output) or \
            re.findall(r"The number of states generated: (\d[\d,]*)", r.output)
        if m:
            r.generated = r.distinct = int(m[-1].replace(",", ""))
    m = re.search(r"Finished computing initial states: (\d[\d,]*) distinct",
                  r.output)
    r.initial = int(m.group(1).replace(",", "")) if m else (simulate or 0)
    if not simulate:
        r.records.sort(key=lambda x: json.dumps(x, sort_keys=True))
    for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", r.output, re.M):
        a, b = r.coverage.get(m.group(1), (0, 0))
        r.coverage[m.group(1)] = (a + int(m.group(2)), b + int(m.group(3)))
    if p.returncode != 0:
        r.error = r.output[-4000:]
        if must_succeed:
            raise MachineryError(
                f"TLC failed on {module} (exit {p.returncode}):\n{r.error}")
    shutil.rmtree(d, ignore_errors=True)
    return r


def cfg(constants=None, *, spec="Spec", invariants=(), properties=(),
        constraints=(), postcondition=None, view=None, init_next=None,
        symmetry=None):
    """Build a TLC configuration text."""
    lines = []
    if init_next:
        lines += [f"INIT {init_next[0]}", f"NEXT {init_next[1]}"]
    elif spec:
        lines.append(f"SPECIFICATION {spec}")
    for k, v in (constants or {}).items():
        if isinstance(v, str) and v.startswith("<-"):
            lines.append(f"CONSTANT {k} {v}")
        else:
            lines.append(f"CONSTANT {k} = {v}")
    for i in invariants:
        lines.append(f"INVARIANT {i}")
    for i in properties:
        lines.append(f"PROPERTY {i}")
    for i in constraints:
        lines.append(f"CONSTRAINT {i}")
    if postcondition:
        lines.append(f"POSTCONDITION {postcondition}")
    if view:
        lines.append(f"VIEW {view}")
    lines.append("CHECK_DEADLOCK FALSE")
    return "\n".join(lines) + "\n"


def tla(v):
    """A Python value as TLA+ text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(type(v))
