#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

    python3 tools/registry.py      rewrites both
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SC, TK, GR, MA, CO = "tpl/scanner.go", "tpl/token.go", "tpl/grammar.go", "tpl/match.go", "tpl/compiler.go"
IN, IU = "tpl/interpreter/interpreter.go", "tpl/interpreter.util/call.go"
NU, CX, RA = "tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go"
EX, ED = "tpl/extractor/extractor.go", "tpl/extractor/document.go"
QL, QF, QC, QK = "tpl/qlang/cl/qlang.go", "tpl/qlang/cl/function.go", "tpl/qlang/cl/ctrl.go", "tpl/qlang/cl/class.go"
QE, QS, QI = "tpl/qlang/engine.go", "tpl/qlang/spec/spec.go", "tpl/qlang/cl/interpreter/interpret.go"
BB, BN, BO, BX = ("tpl/qlang/lib/builtin/builtin.go", "tpl/qlang/lib/builtin/number.go",
                  "tpl/qlang/lib/builtin/boolean.go", "tpl/qlang/lib/builtin/exports.go")
GE, TG, TO, TC = "tpl/generator/static_parser_gen.go", "tpl/cmd/tplgen/main.go", "tpl/cmd/tplgen/output.tpl", "tpl/cmd/tplconv/tplconv.go"

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note))


exec(open(os.path.join(ROOT, "tools", "props.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS if p["id"] in IMPLEMENTED],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"}
                           for p in PROPS if p["id"] not in IMPLEMENTED],
        "notes": "No hooks in /repo: every check drives the exported API (or the built commands) of the tree in "
                 "/repo. See DESIGN.md. Replay a reported case with: python3 check.py --replay <path>.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
