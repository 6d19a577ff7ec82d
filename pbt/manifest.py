"""python3 -m pbt.manifest: rewrites MANIFEST.json from the table of checks."""
import json, os
from . import checks
from .core import HERE

NOTE = ("Randomised search over generated programs and histories against an executable oracle; finds violations, does not prove absence. "
        "Trusts the generator's domain, the model/oracle in /verif/cpp and /verif/pbt, and g++ 13.")


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    t = checks.table()
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
             notes="No hooks: everything is observed through the public API. /repo carries only 'fix:' commits (see known-findings.txt).")
    for i in ids:
        if i in t:
            c = t[i]()
            m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                    evidence_file="evidence/%s.json" % i, technique=c.technique or "property-based testing", level="exploration", level_note=NOTE))
        else:
            m["not_applicable"].append(dict(property=i, reason="not built yet"))
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
