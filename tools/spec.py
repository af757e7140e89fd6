"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "deltares_coastal_structures_toolbox/functions/"
P = []      # (id, title, statement, over, text, why, files, mechanism, technique, level_note)
NA = []     # (id, title, statement, over, text, why, files, mechanism, reason)


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append((id, title, statement, over, text, why, [B + f for f in files], mechanism, technique, note))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append((id, title, statement, over, text, why, [B + f for f in files], mechanism, reason))


VG = ("gated value-graph dataflow (abstract interpretation of the ast into terms) compared with reference formulas by "
      "polynomial normal form and cut points; reports confirmed by identity testing of the terms")
VGN = ("Every public function is interpreted once per set of supplied optional inputs with all numbers symbolic; the "
       "term is proved equal to the reference term, or a violation is reported with an assignment under which the two "
       "terms differ. Call shapes with neither are listed as undecided in the evidence. Trusts csa/ref, the "
       "interpreter's model of numpy, real arithmetic (no rounding), positive physical inputs.")
WHY = ("The formulas are piecewise in many real inputs and optional arguments; tests sample a few points of a few "
       "branches, a wrong coefficient or switch in an unsampled region passes them all.")


def conform(id, title, statement, files, mech):
    prop(id, title, statement, ["inputs", "configurations"],
         "for all real-valued inputs and every combination of supplied optional arguments", WHY, files, mech, VG, VGN)


exec(open(os.path.join(HERE, "tools", "props_text.py")).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for t in sorted(P + NA, key=lambda t: t[0]):
            id, title, st, over, text, why, files, mech = t[:8]
            assert len(title) <= 80, title
            f.write(json.dumps({"id": id, "title": title, "statement": " ".join(st.split()),
                                "quantifier": {"over": over, "text": text}, "why_tests_cant": " ".join(why.split()),
                                "anchors": {"files": files, "mechanism": [{"name": m.split(" @ ")[0], "where": m.split(" @ ")[1]} for m in mech]}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -c 'import csa.run'",
           "checks": [{"property": t[0], "quick_cmd": f"python3 -m csa.run {t[0]}",
                       "thorough_cmd": f"python3 -m csa.run {t[0]} --thorough",
                       "technique": " ".join(t[8].split()), "level": "other", "level_note": " ".join(t[9].split())}
                      for t in sorted(P)],
           "not_applicable": [{"property": t[0], "reason": " ".join(t[8].split())} for t in sorted(NA)]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
