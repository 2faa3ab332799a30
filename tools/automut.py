#!/usr/bin/env python3
"""Automatic mutants of zigpy: which survive the existing tests, and which of those do the checks catch?

usage: automut.py OUT.jsonl SEED HOURS WORKERS [FILE...]
Appends one JSON line per mutant: file, line, operator, before, after, status (tests | PID | survived), checks run.
Everything happens in scratch copies under /tmp.
"""

import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "zigpy/application.py": ["R09", "D07", "D02", "N02", "N01", "R01", "R06", "D03", "D01", "S05", "N03", "R05", "R03", "R02", "R08"],
    "zigpy/device.py": ["R09", "R02", "D01", "R01", "R04", "R05", "O01", "D02", "N02", "R03", "S01", "D03"],
    "zigpy/zdo/__init__.py": ["D07", "R09", "R01", "T04", "D02", "D03", "R06", "Z03", "D01"],
    "zigpy/zdo/types.py": ["T04", "D06", "T02"],
    "zigpy/zcl/__init__.py": ["R09", "T05", "Z01", "Z02", "Z03", "T03", "R02", "D04", "S01", "R01"],
    "zigpy/zcl/foundation.py": ["T03", "T05", "Z01", "Z03", "Z02"],
    "zigpy/endpoint.py": ["R09", "D01", "D04", "R01", "Z02", "D05", "Z03"],
    "zigpy/group.py": ["D04", "R06", "S01"],
    "zigpy/topology.py": ["D06", "N02", "S01"],
    "zigpy/appdb.py": ["S01", "S02", "S03", "N02"],
    "zigpy/backups.py": ["S05", "S04", "N02", "S01"],
    "zigpy/state.py": ["N06", "S04", "S05", "S01"],
    "zigpy/util.py": ["R07", "R02", "R08", "N01", "N03", "R06", "D01", "D06"],
    "zigpy/datastructures.py": ["R03", "R04", "R07"],
    "zigpy/listeners.py": ["R05"],
    "zigpy/config/__init__.py": ["N04"],
    "zigpy/config/validators.py": ["N04"],
    "zigpy/ota/__init__.py": ["O03", "O04", "N02", "O02"],
    "zigpy/ota/providers.py": ["O03"],
    "zigpy/ota/image.py": ["O02", "O03", "O01"],
    "zigpy/ota/validators.py": ["O02", "O03"],
    "zigpy/ota/manager.py": ["O01"],
    "zigpy/quirks/__init__.py": ["D05", "Z01", "Z03", "D01"],
    "zigpy/quirks/registry.py": ["D05"],
    "zigpy/quirks/v2/__init__.py": ["D05"],
    "zigpy/types/basic.py": ["T01", "T06", "T03", "T02", "T04"],
    "zigpy/types/named.py": ["T01", "T06", "T04", "T02", "S04", "R06"],
    "zigpy/types/struct.py": ["T02", "T03", "T04"],
    "zigpy/zcl/clusters/general.py": ["Z02", "T03"],
    "zigpy/zcl/clusters/__init__.py": ["T03"],
}
FIRST = {
    "zigpy/application.py": "tests/test_application.py",
    "zigpy/device.py": "tests/test_device.py",
    "zigpy/zdo/__init__.py": "tests/test_zdo.py",
    "zigpy/zdo/types.py": "tests/test_zdo_types.py",
    "zigpy/zcl/__init__.py": "tests/test_zcl.py",
    "zigpy/zcl/foundation.py": "tests/test_zcl_foundation.py",
    "zigpy/endpoint.py": "tests/test_endpoint.py",
    "zigpy/group.py": "tests/test_group.py",
    "zigpy/topology.py": "tests/test_topology.py",
    "zigpy/appdb.py": "tests/test_appdb.py",
    "zigpy/backups.py": "tests/test_backups.py",
    "zigpy/state.py": "tests/test_app_state.py",
    "zigpy/util.py": "tests/test_zigbee_util.py",
    "zigpy/datastructures.py": "tests/test_datastructures.py",
    "zigpy/listeners.py": "tests/test_listeners.py",
    "zigpy/config/__init__.py": "tests/test_config.py",
    "zigpy/config/validators.py": "tests/test_config.py",
    "zigpy/quirks/__init__.py": "tests/test_quirks.py",
    "zigpy/quirks/registry.py": "tests/test_quirks_registry.py",
    "zigpy/quirks/v2/__init__.py": "tests/test_quirks_v2.py",
    "zigpy/types/basic.py": "tests/test_types.py",
    "zigpy/types/named.py": "tests/test_types.py",
    "zigpy/types/struct.py": "tests/test_struct.py",
    "zigpy/zcl/clusters/general.py": "tests/test_zcl_clusters.py",
}


def mutants(path, src):
    """Yield (line, operator, start, end, replacement) in byte offsets of `src`."""
    tree = ast.parse(src)
    starts = [0]
    data = src.encode()
    for line in data.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        # logging, messages, type-checking blocks, annotations
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("debug", "info", "warning", "error", "exception", "log"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(x for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.If) and "TYPE_CHECKING" in text(n.test):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    skip.update(ast.walk(a.annotation))
            if n.returns is not None:
                skip.update(ast.walk(n.returns))
            if n.name in ("__repr__", "__str__", "log"):
                skip.update(ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Assert):
            skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))

    swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for s in f.body:
                infunc.update(ast.walk(s))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            yield n.lineno, "compare", *span(n), f"({text(l)} {swap[type(n.ops[0])]} {text(r)})"
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                inv = {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<"}[type(n.ops[0])]
                yield n.lineno, "invert", *span(n), f"({text(l)} {inv} {text(r)})"
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield n.lineno, "boolop", *span(n), "(" + op.join(f"({text(v)})" for v in n.values) + ")"
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                old = " and " if isinstance(n.op, ast.And) else " or "
                yield n.lineno, "dropterm", *span(n), "(" + old.join(f"({text(v)})" for v in rest) + ")"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.lineno, "not", *span(n), f"({text(n.operand)})"
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and n in infunc:
            yield n.lineno, "arith", *span(n), f"({text(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {text(n.right)})"
        elif isinstance(n, ast.Constant) and type(n.value) is int and (n in infunc or path.startswith(("zigpy/util", "zigpy/device", "zigpy/app", "zigpy/ota", "zigpy/backups"))):
            yield n.lineno, "const", *span(n), str(n.value + 1)
            if n.value:
                yield n.lineno, "const", *span(n), f"({n.value - 1})"
        elif isinstance(n, ast.Constant) and type(n.value) is bool and n in infunc:
            yield n.lineno, "bool", *span(n), str(not n.value)
        elif isinstance(n, (ast.If, ast.While)) and n in infunc:
            if isinstance(n, ast.If):
                yield n.lineno, "iftrue", *span(n.test), "True"
            if not (isinstance(n.test, ast.Constant)):
                yield n.lineno, "iffalse", *span(n.test), "False"
        elif isinstance(n, ast.IfExp):
            yield n.lineno, "ifexp", *span(n), f"({text(n.body)})"
            yield n.lineno, "ifexp", *span(n), f"({text(n.orelse)})"
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for k in range(len(n.type.elts)):
                    rest = [text(v) for i, v in enumerate(n.type.elts) if i != k]
                    yield n.lineno, "except", *span(n.type), "(" + ", ".join(rest) + ",)"
            elif text(n.type) == "Exception":
                yield n.lineno, "except", *span(n.type), "ValueError"
        elif isinstance(n, ast.Continue):
            yield n.lineno, "continue", *span(n), "break"
        elif isinstance(n, ast.Break):
            yield n.lineno, "break", *span(n), "continue"
        elif n in infunc and isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            if isinstance(n.value, ast.Call) and n.value in skip:
                continue
            yield n.lineno, "delete", *span(n), "pass"
        elif n in infunc and isinstance(n, (ast.AugAssign, ast.Delete)):
            yield n.lineno, "delete", *span(n), "pass"
        elif n in infunc and isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            yield n.lineno, "delete", *span(n), "pass"
        elif isinstance(n, ast.Raise) and n in infunc:
            yield n.lineno, "delete", *span(n), "pass"
        elif isinstance(n, ast.Return) and n.value is not None and n in infunc and not isinstance(n.value, ast.Constant):
            yield n.lineno, "return", *span(n), "return None"
        elif isinstance(n, ast.Call) and n in infunc:
            if n.keywords and all(k.arg for k in n.keywords) and isinstance(n.func, (ast.Name, ast.Attribute)) and n.keywords[-1].value not in skip:
                k = random.Random(n.lineno).choice(n.keywords)
                a, b = starts[k.lineno - 1] + k.col_offset, starts[k.end_lineno - 1] + k.end_col_offset
                while data[b : b + 1] in b" \n":
                    b += 1
                if data[b : b + 1] == b",":
                    yield n.lineno, "dropkw", a, b + 1, ""
            if text(n.func) in ("min", "max"):
                yield n.lineno, "minmax", *span(n.func), "max" if text(n.func) == "min" else "min"
            if len(n.args) == 2 and not n.keywords and text(n.args[0]) != text(n.args[1]):
                a, b = span(n.args[0])[0], span(n.args[1])[1]
                yield n.lineno, "swapargs", a, b, f"{text(n.args[1])}, {text(n.args[0])}"


def main():
    out, seed, hours, workers = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or sorted(MAP)
    rng = random.Random(seed)
    base = tempfile.mkdtemp(prefix="automut-", dir="/tmp")
    done = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            done.add((d["file"], d["line"], d["op"], d["after"], d["before"]))
    per = {}
    for f in files:
        src = open(f"/repo/{f}").read()
        found = []
        for line, op, a, b, new in mutants(f, src):
            data = src.encode()
            text = data[:a].decode() + new + data[b:].decode()
            before = data[a:b].decode()
            if (f, line, op, new, before) in done:
                continue
            try:
                compile(text, f, "exec")
            except SyntaxError:
                continue
            found.append((f, line, op, before, new, text))
        rng.shuffle(found)
        per[f] = found
        print(f, len(found), flush=True)
    # larger files get more, but every file gets some
    queue = []
    for f, found in per.items():
        for i, m in enumerate(found):
            queue.append(((i + rng.random()) / (len(found) ** 0.7), m))
    queue.sort(key=lambda x: x[0])
    queue = [m for _, m in queue]
    end = time.time() + hours * 3600
    lock = threading.Lock()
    stats = {}

    def sh(cmd, cwd, env, limit):
        try:
            r = subprocess.run(["bash", "-c", "ulimit -v 6000000; exec " + cmd], cwd=cwd, env=env, capture_output=True, text=True, timeout=limit)
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            return 124, ""

    def work(n):
        d = f"{base}/{n}"
        os.mkdir(d)
        subprocess.check_call(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True)
        env = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LANG="C.UTF-8")
        while time.time() < end:
            with lock:
                if not queue:
                    return
                f, line, op, before, new, text = queue.pop(0)
            orig = open(f"{d}/{f}").read()
            open(f"{d}/{f}", "w").write(text)
            first = FIRST.get(f, "tests/ota" if "/ota/" in f else "")
            common = f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=60 --ignore=tests/ota/test_ota_providers.py --deselect tests/test_serial.py::test_pyserial_error_remapping --deselect tests/test_quirks_v2.py::test_quirks_v2 --basetemp={d}.t"
            rc = 0
            if first:
                rc, _ = sh(f"{common} {first}", d, env, 200)
            if rc == 0:
                rc, _ = sh(f"{common} tests", d, env, 300)
            ran, msg = [], ""
            if rc != 0:
                status = "tests"
            else:
                status = "survived"
                cenv = dict(os.environ, VERIF_REPO=d, VERIF_EVID="/dev/null", VERIF_REPLAYS=f"{d}.r")
                for pid in MAP[f]:
                    rc, o = sh(f"./run {pid}", HERE, cenv, 900)
                    ran.append([pid, rc])
                    if rc == 1 and "VIOLATION property=" in o:
                        status, msg = pid, o.strip().split("\n")[0][:300]
                        break
                    if rc != 0:
                        msg = o.strip()[-300:]
            open(f"{d}/{f}", "w").write(orig)
            with lock:
                stats[status] = stats.get(status, 0) + 1
                with open(out, "a") as o:
                    o.write(json.dumps({"file": f, "line": line, "op": op, "before": before, "after": new, "status": status, "checks": ran, "msg": msg}) + "\n")

    ts = [threading.Thread(target=work, args=(n,)) for n in range(workers)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    print(stats)
    shutil.rmtree(base)


main()
