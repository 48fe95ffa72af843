"""Running one check: findings, known findings, floors, evidence, exit status."""

from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

from .model import AnalysisBroken, Project

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.json"


class Finding:
    """One violated rule instance.

    ``key`` identifies the construct (rule, function, object) and never contains a line number.
    """

    def __init__(self, rule: str, construct: str, what: str, loc: str, message: str) -> None:
        self.rule = rule
        self.construct = construct
        self.what = what
        self.loc = loc
        self.message = message

    @property
    def key(self) -> tuple[str, str, str]:
        return (self.rule, self.construct, self.what)

    def text(self) -> str:
        return f"{self.loc}: [{self.rule}] {self.construct}: {self.message}"


class Result:
    def __init__(self) -> None:
        self.findings: list[Finding] = []
        self.counts: dict[str, int] = {}
        self.samples: list[str] = []
        self.explanation = ""
        self.assumptions: list[str] = []
        self.floors: dict[str, int] = {}
        self.detail: dict[str, object] = {}

    def add(self, rule: str, construct: str, what: str, loc: str, message: str) -> None:
        f = Finding(rule, construct, what, loc, message)
        if f.key not in {g.key for g in self.findings}:
            self.findings.append(f)

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s: str, limit: int = 12) -> None:
        if len(self.samples) < limit:
            self.samples.append(s)


def load_known() -> list[dict]:
    if not KNOWN.exists():
        return []
    return json.loads(KNOWN.read_text())["findings"]


def run(prop: str, technique: str, analyse, argv: list[str] | None = None) -> int:
    """Analyse, compare with the known findings, write evidence, and return the exit status."""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if argv and "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        project = Project()
        res: Result = analyse(project, tier)
        for name, floor in res.floors.items():
            if res.counts.get(name, 0) < floor:
                raise AnalysisBroken(
                    f"only {res.counts.get(name, 0)} {name} were analysed, at least {floor} are expected: "
                    "the analysed program has changed shape and this verdict would be vacuous"
                )
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop}: internal error")
        return 2
    known = {}
    for k in load_known():
        if k["property"] == prop and k.get("status", "known") == "known":
            known[(k["rule"], k["construct"], k["what"])] = k
    new = [f for f in res.findings if f.key not in known]
    seen = [f for f in res.findings if f.key in known]
    for f in seen:
        print(f"KNOWN-FINDING: property={prop} {f.text()} -- {known[f.key].get('note', '')}")
    digest = hashlib.sha256("".join(m.src for m in project.modules.values()).encode()).hexdigest()[:16]
    cov: dict[str, object] = {
        "explanation": res.explanation,
        "rule": technique,
        "counts": res.counts,
        "modules_parsed": len(project.modules),
        "functions_parsed": len(project.funcs),
        "source_digest": digest,
        "samples": res.samples,
        "known_findings_matched": [f.text() for f in seen],
        "known_findings_not_seen": [" | ".join(k) for k in known if k not in {f.key for f in seen}],
        "violations": [f.text() for f in new],
    }
    cov.update(res.detail)
    out = VERIF / "evidence"
    out.mkdir(exist_ok=True)
    replay = out / f"{prop}.report.txt"
    replay.write_text("\n".join(f.text() for f in new) + ("\n" if new else "no violation\n"))
    (out / f"{prop}.json").write_text(
        json.dumps(
            {
                "property": prop,
                "tier": tier,
                "seed": seed,
                "level": "other",
                "coverage": cov,
                "wall_s": round(time.time() - t0, 3),
                "violations": len(new),
                "assumptions": res.assumptions,
            },
            indent=1,
        )
    )
    print(f"{prop}: " + ", ".join(f"{k}={v}" for k, v in res.counts.items()) + f"; {len(seen)} known, {len(new)} new")
    for f in new:
        print("  " + f.text())
    if new:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 0
