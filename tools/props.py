#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DOC = "pkg/document/document.go"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, check=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe,
                           "hook_needed": None, **({"state": state} if state else {})}, check=check, na=na))

prop("C01", "Near-search returns exactly the nearest stored documents",
     "On a collection whose graph is complete (up to 30 documents with vectors), a near-search by vector or by text returns every stored document whose cosine distance to the query is at most the requested distance, nearest first, cut to the limit, and nothing else. Each returned document is paired with its own true distance, no document appears twice, and an empty collection gives an empty answer.",
     ["inputs", "histories", "configurations"],
     "every set of document vectors, every batching of their addition, every placement of restarts, every query vector or text, distance and limit",
     "the one existing document test needs a running vectorizer and compares a handful of queries with nothing; exactness is a statement about all vector sets and layer assignments",
     [DOC, "pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/search.go", "pkg/hnsw/insert.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/distancer/cosine_dist.go", "pkg/hnsw/distancer/normalize.go"],
     [("layered greedy search with bounded result queue", "pkg/hnsw/search_with_max_dist.go KnnSearchByVectorMaxDist, search.go searchLayerByVector"), ("normalisation of stored and query vectors", "insert.go Add, search_with_max_dist.go"), ("entry to document resolution", DOC + " GetNearDocuments*")],
     ["GetNearDocuments", "GetNearDocumentsByVector"],
     check=("exhaustive bounded exploration of the real client against a brute-force oracle", "exploration", "all vector tuples up to 3 of 9 vectors, all batchings and restart placements of 4 documents, generated collections up to 28 documents; compared with brute force"))

prop("C02", "Acknowledged documents stay retrievable and intact",
     "After any history of successful adds, replacements, searches and restarts, every document whose latest add was acknowledged is returned unchanged by id, by its indexed properties and by near-search, in the same process and after a restart. A document that was replaced is never returned in its old form, and a document that was never added is never returned.",
     ["histories"],
     "every sequence of add (vector, text, no vector, batches, repeated ids), replace, search, lookup and restart operations",
     "the existing tests add one fixed batch into one process and never restart, replace or add twice",
     [DOC, "pkg/hnsw/insert.go", "pkg/hnsw/index.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/vertex.go"],
     [("index ids handed out from the stored count", DOC + " AddDocuments"), ("flush of changed graph nodes and entry point", "pkg/hnsw/insert.go Flush"), ("feed commit before the acknowledgement", DOC + " CommitPodFeeds")],
     ["AddDocuments", "GetDocument", "GetNearDocuments", "GetNearDocumentsByVector"],
     check=("exhaustive operation-sequence exploration of the real client against a reference model", "exploration", "all sequences of up to 3 of 10 operations and selected 4-5 step sequences; model = map id -> document"))

exec(open(os.path.join(here, "tools", "props_more.py")).read())

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("check", "na")}
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
    man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        if p["check"]:
            t, lv, note = p["check"]
            man["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                                  "technique": t, "level": lv, "level_note": note})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
main()
