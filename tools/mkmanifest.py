"""Write MANIFEST.json: a check per module in harness/checks, the other properties are listed as not (yet) decided."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "TLA+ spec of the inverted index and of the batched run; TLC schedules replayed, recorded runs validated by TLC",
    "C02": "TLA+ spec of the positional index; TLC schedules replayed, recorded runs validated by TLC",
    "C03": "TLA+ spec of reindexing histories; recorded histories validated by TLC",
    "C04": "TLA+ design model of an indexing run with faults; faults at every statement, batch and schedule, traces validated by TLC",
    "C08": "TLA+ state machine of the feature model; every transition replayed, random histories validated by TLC",
    "C09": "TLA+ spec of derived cluster data; recorded histories validated by TLC",
    "C10": "TLA+ spec of refinement; recorded refinements validated by TLC",
    "C11": "TLA+ spec of refinement counts; recorded refinements validated by TLC",
    "C05": "TLA+ spec of passages and queries; generated and random queries on the real index validated by TLC",
    "C06": "TLA+ spec of windows and collocations; recorded results validated by TLC",
    "C07": "TLA+ spec of concordances and rendered passages; recorded renderings validated by TLC",
    "C13": "TLA+ state machine of nested transactions with faults at every statement; runs replayed and validated by TLC",
    "C14": "TLA+ spec of snapshot sessions; statement interleavings driven in the real code and checked for serializability by TLC",
    "C15": "TLA+ spec of twin sessions under completion orders; pairs of real sessions under different schedules validated by TLC",
    "C16": "TLA+ spec of ranked clusters in exact rationals; recorded pivots validated by TLC",
    "C17": "TLA+ spec of the bit slices and the threshold algorithm; recorded runs validated by TLC",
    "C18": "TLA+ spec of structured sampling; recorded samples and exports validated by TLC",
    "C19": "TLA+ spec of document retrieval; recorded retrievals validated by TLC",
    "C20": "TLA+ spec of cross tabulation and cooccurrence; recorded tables and graphs validated by TLC",
    "C21": "TLA+ state machine of a text corpus with faults and readers; TLC runs replayed, recorded histories validated by TLC",
    "C22": "TLA+ state machine of dumps and documents; recorded histories with damaged dumps and faults validated by TLC",
    "C23": "TLA+ state machine of versions, migration steps, faults and openers; recorded openings validated by TLC",
    "C24": "TLA+ state machine of requests; recorded request histories validated by TLC",
    "C25": "TLA+ state machine of commands; recorded command histories validated by TLC",
    "C26": "TLA+ state machine of arriving observations; recorded histories of real corpora validated by TLC",
    "C27": "TLA+ specification of the word scan, model checked on every short text; recorded words of the real tokenisers validated by TLC",
    "C12": "TLA+ spec of the objective in exact rationals; recorded refinements validated by TLC",
}
NOTE = {
    "C04": "the faults of every statement of the sampled runs; trusts SQLite's own crash recovery (crashes are process deaths)",
}
DEFAULT_NOTE = ("the specification is checked exhaustively with small constants; the code is bound to it by replayed and "
                "recorded executions, so it holds for what was executed; trusts SQLite, pyroaring and TLC")


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "harness", "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} thorough",
                           "technique": TECH.get(i, "TLA+ specification checked with TLC; traces of the real code validated against it"),
                           "level": "model_checking", "level_note": NOTE.get(i, DEFAULT_NOTE)})
        else:
            na.append({"property": i, "reason": "its check isn't finished yet"})
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
