"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked by TLC; "
CLAIMS = {
 "C01": ("spec/Adequacy.tla; TLC enumerates small instances, real solves are trace-validated against the balance of every step",
         "Holds on every explored study: TLC decides the balance clause on every step of recorded dispatches (fixed point, relative tolerance 1e-5). Bounded study sizes; studies are sampled (seeded) plus TLC-enumerated families. Trusts TLC, the recording driver, and the in-process pool stand-in (C06 uses the real one too)."),
 "C02": ("spec/Adequacy.tla; limits of every element checked by TLC on recorded dispatches, structure compared with the study",
         "As C01, for the limit and structure clauses."),
 "C03": ("spec/Adequacy.tla; storage level is the state of the trace specification, checked step by step by TLC",
         "As C01, for the storage transition (level' = level + eff*in - out), with several storages per node, names shared across nodes and networks."),
 "C04": ("spec/Adequacy.tla; converter ratio clause checked by TLC on every recorded step", "As C01, for converters with one to three sources, ratios per scenario and step."),
 "C05": ("spec/Adequacy.tla; TLC explores all dispatches of small instances for the exact optimum, larger ones get a feasible witness and dual prices verified by TLC",
         "On TLC-enumerated instances the optimum is exact (integer dispatch graph explored exhaustively); on random studies a cheaper dispatch found by an independent LP (HiGHS) is verified by TLC before it counts as a violation, and dual certificates are counted."),
 "C06": ("spec/SolvePool.tla; every worker schedule of the pool enumerated by TLC and replayed, results compared with alone solves through spec/AdequacyTrace.tla",
         "All schedules for small numbers of scenarios and workers; real multiprocessing pool on a sample."),
 "C07": ("spec/Adequacy.tla; feasibility decided by TLC on the Drain family (exhaustive) and by verified margin on random studies", "Outcome (result or error) compared with feasibility; instances near the feasibility boundary are skipped (counted)."),
 "C08": ("spec/Numeric.tla; TLC enumerates shapes x containers x fields, cases are replayed and judged by TLC", "Every shape up to the bound for every field and container, read through the study, the tables, and the solver."),
 "C09": ("spec/StudyBuild.tla; TLC generates builder sessions (exhaustive short ones, random long ones), replay judged by spec/StudyTrace.tla", "Accept/reject and the whole study content after every call compared with the specification."),
 "C10": ("spec/StudyBuild.tla; interleaved handle sessions from TLC replayed and judged by spec/StudyTrace.tla", "Whole study content after every call compared with the specification, handles stored and reused."),
 "C11": ("spec/JsonLife.tla; lives of studies and documents generated by TLC and replayed, judged by spec/JsonTrace.tla; copies solved and judged by spec/AdequacyTrace.tla", "Content, document text and equality after every step of every life; sampled studies of every kind."),
 "C12": ("spec/JsonLife.tla; lives of results and documents recorded and judged by spec/JsonTrace.tla", "Content, analysis tables, document text and equality after every step."),
 "C13": ("spec/Remote.tla; every server behaviour up to the bound enumerated by TLC and replayed against the real client over loopback HTTP, request log judged by TLC", "All server behaviours up to the bound; sleeping is stubbed."),
 "C14": ("spec/Analyzer.tla; tables recorded from the real analyzer are judged row by row by TLC", "Random studies with synthetic results (every cell distinct) of every kind."),
 "C15": ("spec/Analyzer.tla; queries enumerated over selector orders and forms, answers judged by TLC", "Rows, values, index of every answer compared with the specification."),
 "C16": ("spec/Analyzer.tla; reported costs judged by TLC", "Exact integer arithmetic on synthetic results."),
 "C17": ("spec/Analyzer.tla; reported balances judged by TLC", "Exact integer arithmetic on synthetic results."),
 "C18": ("spec/Analyzer.tla; reported remaining capacity judged by TLC", "Exact integer arithmetic on synthetic results."),
 "C19": ("spec/Pipeline.tla; TLC enumerates stage chains and compositions, replayed and judged by TLC", "All chains up to the bound over a small column alphabet plus random longer ones."),
 "C20": ("spec/Pipeline.tla; stage runs recorded and judged by TLC", "Random data, scenarios and stage chains; exact values."),
 "C21": ("spec/Fault.tla; TLC decides whether a recorded loss profile is a sum of admissible outages, and whether counts and seeds agree", "Statistics with wide bounds (false alarm probability below 1e-9)."),
 "C22": ("spec/Shuffle.tla; worker schedules enumerated by TLC and replayed, output judged by TLC", "All schedules for small numbers of timelines; sampler calls recorded."),
 "C23": ("spec/Viewer.tla; data handed to the plotting backend judged by TLC", "Random studies with solved and synthetic results; the data read back from the plotly figures."),
 "C24": ("spec/Viewer.tla; stack, map and matrix data judged by TLC", "Random studies, solved and synthetic results."),
 "C25": ("spec/SolveClock.tla; the clock model is explored by TLC and the durations recorded from real solves are judged against the same clauses", "Relations between durations with 100 ms slack; in-process and real pools; several solves with one optimizer."),
 "C26": ("spec/Isolation.tla; TLC enumerates the interleavings of the programs of several objects, each is replayed in one process and compared by TLC with every object alone in its own process", "All interleavings of short programs, drawn ones of longer programs; objects alike in names and shapes; objects dropped and followed by others; answers read again at the end. Costs of solves within 2e-5, everything else exactly."),
}
MODS = {"C01": "chk_adequacy", "C02": "chk_adequacy", "C03": "chk_adequacy", "C04": "chk_adequacy", "C05": "chk_adequacy", "C06": "chk_pool", "C07": "chk_adequacy",
        "C08": "chk_numeric", "C09": "chk_build", "C10": "chk_build", "C11": "chk_json", "C12": "chk_json", "C13": "chk_remote", "C14": "chk_analyzer", "C15": "chk_analyzer",
        "C16": "chk_analyzer", "C17": "chk_analyzer", "C18": "chk_analyzer", "C19": "chk_pipeline", "C20": "chk_pipeline", "C21": "chk_fault", "C22": "chk_shuffler",
        "C23": "chk_viewer", "C24": "chk_viewer", "C25": "chk_clock", "C26": "chk_isolation"}
have = [p for p in CLAIMS if os.path.exists(os.path.join(HERE, "harness", MODS[p] + ".py"))]
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": T + CLAIMS[p][0],
                       "level": "model_checking", "level_note": CLAIMS[p][1]} for p in have],
           "not_applicable": [{"property": p, "reason": "check under construction"} for p in CLAIMS if p not in have],
           "notes": "TLA+ with TLC. No hooks in /repo: the checks use the public API only. Known and fixed findings: known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
