#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
TECH = "contract-based deductive verification: VCs generated from /repo's SSA against contracts, discharged by z3/cvc5"
claimed = {
 "C01": "pipeline and its constructor under contract; stages are arbitrary stateful implementations of the stage contracts",
 "C02": "tokenizer, its constructors and the keep rules under contract; strings.FieldsFunc, unicode.IsLetter/IsNumber by assumed contract",
 "C03": "filter and constructor under contract, frame included",
 "C04": "both filters under contract, frame included; strings.ToLower and the stemming library are uninterpreted functions",
 "C05": "Put under contract with the index invariant (pre and post), frame included; the analysis is an uninterpreted function of the text",
 "C06": "all read operations of the index, the four engines and the repository's Search and String under contract with an empty frame",
 "C07": "LinearSearch and intersection under contract over any index that keeps the Indexer contract",
 "C08": "HitsSearch under contract over any index that keeps the Indexer contract",
 "C09": "HitsSearch order and the comparison used by sort.Sort under contract; sort.Sort by assumed contract with its preconditions proved",
 "C10": "both no-op engines under contract",
 "C11": "index additions keep the listings equal to the analysed statements, and both engines run on the index find exactly the documents whose statement contains the query tokens; the analysis is an uninterpreted function of the text",
 "C12": "Put and Alias resolution under contract over arbitrary indexes (the Index contract); workers by the fork/join rules",
 "C13": "Search under contract over arbitrary indexes; results of several members as multisets",
 "C14": "Alias and UnAlias under contract, reports, associations, frame",
 "C15": "Rename under contract",
 "C16": "Drop under contract",
 "C17": "Has, HasAlias, List, ListAliases under contract; results proved freshly allocated and unshared",
 "C18": "every access of every repository operation, its workers included, proved guarded by its lock or owned",
 "C19": "lock acquisition order, release on every path, no re-acquisition, wait-group balance proved on every path of every operation",
 "C20": "two-phase locking proved per path: no lock is taken after one was released and something was changed; then the sequential contracts hold at one instant",
 "C21": "MarshalJSON, UnmarshalJSON and the easyjson variants under contract over the token sequence of the text: the encoder writes a well-formed object with the four values, and the decoder accepts every such object, members in any order and others among them; what jlexer and jwriter do with one token is assumed",
 "C22": "R1R2RV under contract for all byte strings; UTF-8 decoding by assumed axioms",
 "C23": "the repository invariant is established by the constructor and kept by every operation",
 "C24": "all constructors and accessors under contract; the hash is proved a function of the ID by a two-run (relational) obligation",
 "C25": "bounds, nil, map-write, division, type-assertion and termination obligations of every function under contract",
}
na = {
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": TECH, "level": "proof", "level_note": claimed[i]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": na.get(i, "machinery not finished yet")} for i in ids if i not in claimed]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
