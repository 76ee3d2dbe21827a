#!/usr/bin/env python3
"""mutate.py OUT SEED N ID...: development tool. In a scratch mirror (mounted over /repo and /verif by tryseed.sh's means)
makes up to N small changes, picked with SEED, to the files the properties ID... are anchored in, and runs their checks.
Of those the checks miss, runs the repository's tests. Writes one line per change to OUT."""
import json, os, random, re, subprocess, sys
MAP = {
 "C01": ["tket/src/circuit/hash.rs"],
 "C02": ["tket/src/circuit/command.rs", "tket/src/circuit/units.rs", "tket/src/circuit.rs", "tket/src/circuit/cost.rs"],
 "C03": ["tket/src/passes/commutation.rs", "tket/src/ops.rs"],
 "C04": ["tket/src/passes/chunks.rs"],
 "C05": ["tket/src/portmatching/matcher.rs", "tket/src/portmatching/pattern.rs", "tket/src/portmatching.rs"],
 "C06": ["tket/src/rewrite/ecc_rewriter.rs", "tket/src/rewrite.rs", "tket/src/optimiser/badger/eq_circ_class.rs", "tket/src/optimiser/badger/qtz_circuit.rs"],
 "C07": ["tket/src/rewrite/strategy.rs", "tket/src/circuit/cost.rs"],
 "C08": ["tket/src/optimiser/pqueue.rs", "tket/src/optimiser/backtracking.rs", "tket/src/optimiser.rs"],
 "C09": ["tket/src/optimiser/pqueue_worker.rs", "tket/src/optimiser/badger/worker.rs", "tket/src/optimiser/badger.rs"],
 "C10": ["tket/src/optimiser/badger.rs"],
 "C11": ["tket/src/passes/borrow_squash.rs"],
 "C12": ["tket/src/passes/guppy.rs", "tket/src/passes/tuple_unpack.rs", "tket/src/passes/const_fold.rs"],
 "C13": ["tket/src/modifier/modifier_resolver.rs"] + ["tket/src/modifier/modifier_resolver/" + f for f in ("tket_op_modify.rs", "dfg_modify.rs", "call_modify.rs", "global_phase_modify.rs", "array_modify.rs")] + ["tket/src/modifier.rs", "tket/src/modifier/control.rs", "tket/src/modifier/power.rs"],
 "C14": ["tket/src/serialize/pytket/encoder.rs", "tket/src/serialize/pytket/encoder/value_tracker.rs", "tket/src/serialize/pytket/opaque.rs", "tket/src/serialize/pytket/circuit.rs", "tket/src/serialize/pytket/encoder/unsupported_tracker.rs", "tket/src/serialize/pytket/opaque/subgraph.rs", "tket/src/serialize/pytket/decoder/subgraph.rs"],
 "C15": ["tket/src/serialize/pytket/decoder.rs", "tket/src/serialize/pytket/decoder/wires.rs", "tket/src/serialize/pytket/decoder/tracked_elem.rs", "tket/src/serialize/pytket/decoder/op.rs", "tket/src/serialize/pytket/extension/tk1.rs", "tket/src/serialize/pytket/extension/core.rs", "tket/src/serialize/pytket/extension/tket.rs", "tket/src/serialize/pytket/extension/bool.rs", "tket-qsystem/src/pytket/qsystem.rs"],
 "C16": ["tket/src/serialize/pytket/decoder/param/parser.rs", "tket/src/serialize/pytket/decoder/param.rs", "tket/src/serialize/pytket/extension/float.rs", "tket/src/serialize/pytket/extension/rotation.rs"],
 "C17": ["tket/src/resource/scope.rs", "tket/src/resource/flow.rs", "tket/src/resource/types.rs", "tket/src/subcircuit/expression.rs", "tket/src/subcircuit/interval.rs", "tket/src/subcircuit.rs"],
 "C18": ["tket-qsystem/src/extension/qsystem/lower.rs", "tket-qsystem/src/extension/qsystem.rs"],
 "C19": ["tket-qsystem/src/replace_bools.rs", "tket-qsystem/src/replace_bools/static_array.rs"],
 "C20": ["tket-qsystem/src/extension/qsystem/barrier.rs", "tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs", "tket-qsystem/src/extension/qsystem/barrier/wrapped_barrier.rs", "tket/src/passes/unpack_container.rs", "tket/src/passes/unpack_container/type_unpack.rs", "tket/src/passes/unpack_container/op_function_map.rs"],
 "C21": ["tket-qsystem/src/lower_drops.rs", "tket-qsystem/src/lib.rs"],
 "C22": ["tket-qsystem/src/lib.rs"],
 "C23": ["tket-qsystem/src/llvm/" + f for f in ("prelude.rs", "qsystem.rs", "futures.rs", "result.rs", "random.rs", "utils.rs", "debug.rs", "array_utils.rs")] + ["tket/src/llvm/rotation.rs", "tket/src/llvm/bool.rs", "qis-compiler/rust/lib.rs", "qis-compiler/rust/gpu.rs", "qis-compiler/rust/array.rs"],
 "C24": ["tket/src/serialize.rs", "tket/src/extension/bool.rs", "tket/src/extension/rotation.rs", "tket/src/extension/debug.rs", "tket/src/extension/modifier.rs", "tket/src/extension/guppy.rs", "tket-qsystem/src/extension/result.rs", "tket-qsystem/src/extension/futures.rs", "tket-qsystem/src/extension/random.rs", "tket-qsystem/src/extension/utils.rs", "tket-qsystem/src/extension/classical_compute.rs", "tket-qsystem/src/extension/classical_compute/gpu.rs"],
}
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
        (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"),
        (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
        (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\bcontinue;", ""), (r"\bbreak;", ""), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.unique\(\)", ""),
        (r"([,(\[] ?)0([)\],])", r"\g<1>1\2"), (r"([,(\[] ?)1([)\],])", r"\g<1>0\2"), (r"\.\.=", ".."), (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"\bIncoming\b", "Outgoing"), (r"\bOutgoing\b", "Incoming"),
        (r" \+= ", " -= "), (r" -= ", " += "), (r"\*= ", "/= "), (r"\.pop\(\)", ".first().cloned()"), (r"saturating_sub", "saturating_add"), (r"\bi32\b", "i16"), (r"Some\((\w+)\) =>", r"Some(\1) if false =>"),
        (r"\blhs\b", "rhs"), (r"\bleft\b", "right"), (r"\binputs?\b", lambda m: m.group(0).replace("input", "output")), (r"\boutputs?\b", lambda m: m.group(0).replace("output", "input"))]
STMT = re.compile(r"^\s+(self\.|[a-z_]+\.|\*)[^=]*\);\s*$|^\s+(\*|self\.)?[a-z_.]+ (\+|-|\|)?= [^;]*;\s*$")
def points(f):
    src = open("/repo/" + f).read().split("\n")
    out = []
    for i, l in enumerate(src):
        if re.match(r"\s*#\[cfg\(test\)\]", l) and i + 1 < len(src) and re.match(r"\s*(pub(\(crate\))? )?mod ", src[i + 1]):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "pub mod", "mod ", "assert", "debug_assert", "impl", "fn ", "pub fn", "pub(")):
            continue
        for a, b in SUBS:
            for m in re.finditer(a, l):
                if '"' in l[:m.start()] and l[:m.start()].count('"') % 2:
                    continue
                n = l[:m.start()] + m.expand(b) + l[m.end():] if isinstance(b, str) else l[:m.start()] + b(m) + l[m.end():]
                if n != l:
                    out.append((i, n))
        if STMT.match(l):
            out.append((i, re.match(r"\s*", l).group(0) + "// deleted"))
    return src, out
def sh(c, t=900):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None
out, seed, n, ids = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])
env = "TKMC_FAST=1 "
for p in ids:
    rnd = random.Random(f"{seed}{p}")
    pts = []
    for f in MAP[p]:
        if os.path.exists("/repo/" + f):
            pts += [(f, i, l) for i, l in points(f)[1]]
        else:
            print("missing", f)
    rnd.shuffle(pts)
    done = 0
    for f, i, new in pts:
        if done >= n:
            break
        src = open("/repo/" + f).read().split("\n")
        old = src[i]
        src[i] = new
        open("/repo/" + f, "w").write("\n".join(src))
        r = sh(env + f"bash /verif/check.sh {p} quick")
        if r is None:
            res = "TIMEOUT"
        elif r.returncode == 3:
            res = "build"
        elif r.returncode == 1:
            res = "caught"
        else:
            o = f"{out}.{p}.json"
            b = sh("bash /opt/vp/build.sh")
            sh(f"bash /opt/vp/test.sh {o}", 600)
            try:
                d = json.load(open(o))
                res = "tests" if base - set(d["passed"]) else "SURVIVED"
                os.unlink(o)
            except Exception:
                res = "tests?"
        src[i] = old
        open("/repo/" + f, "w").write("\n".join(src))
        if res != "build":
            done += 1
            open(out, "a").write(f"{res} {p} {f}:{i+1}\n   - {old.strip()}\n   + {new.strip()}\n")
