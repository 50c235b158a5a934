#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run from /verif)."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["0ee3f60", "8d97bde"]
T = {
 "C01": ("model-based random histories against a map model", "Random operation histories (several client instances, two backends) shrunk and replayable; oracle: a keyword-to-set map with graph reachability. Trusts the model (180 lines)."),
 "C02": ("random graphs against a reachability oracle", "Random and extreme graphs (cycles, diamonds, chains of tens of thousands of links run on a small stack), result and number of rounds compared with a breadth-first reference."),
 "C03": ("random graphs and interrupt plans against a level-by-level oracle", "The callback answers at every level (stop, error, continue) are drawn; the maps shown, the requests sent afterwards and the result are compared with the model."),
 "C04": ("random and boundary byte strings, round trip against a model", "Byte strings chosen around block, line and length-byte boundaries, nested, one bit apart, equal as data and keyword; every length 0-330 enumerated and lengths up to 1 MB sampled in a scenario."),
 "C05": ("model-based histories and schedules counting reported keywords", "Exact comparison of the returned set with the model, sequentially, under generated interleavings and after compactions."),
 "C06": ("generated schedules of concurrent clients, linearization search", "Every database request is a scheduling point and the interleaving is drawn and shrunk; final contents are checked against all sequential orders compatible with real time. Requests themselves are assumed atomic (C17 checks the backend)."),
 "C07": ("fault and crash enumeration over generated histories", "For each generated state and call, every request is made to fail before or after taking effect, or the client is stopped there; then the index is checked and reused. Double faults are drawn."),
 "C08": ("metamorphic: results before and after random compactions", "Histories interleaving updates and compactions of any rate, with the batch size lowered by the guarded hook so that several batches occur."),
 "C09": ("random histories against exact line counts", "Numbers of lines in both tables compared after every call with counts derived from the documented packing; after a full compaction, with the minimum."),
 "C10": ("random filters against a model", "Filters keep, drop, invent, or fail at a drawn call; what they are shown and what is left is compared with the model."),
 "C11": ("fault and crash enumeration during compaction", "Every request of generated compactions fails or stops (before/after effect), single and double faults, target label in use, retries; each keyword must be whole under one pair of credentials."),
 "C12": ("snapshot comparison around random compactions", "All tokens and values compared before and after; refused compactions must leave both tables identical."),
 "C13": ("random histories over several credentials sharing the tables", "Several key/label pairs chosen close to one another (prefixes, one bit apart, boundary shifts) over shared tables; one model per pair."),
 "C14": ("fault injection in stored bytes", "One stored value altered or transplanted, then every operation is tried: error and no derived write when it reads it, exact results otherwise. Swaps between two genuine entries are out of the claim."),
 "C15": ("invariant over recorded writes of random histories", "All values ever written are recorded: nonces, tokens, ciphertexts never repeat, no plaintext substring appears; the randomness source of the sandbox is replaced by a seeded stream."),
 "C16": ("differential testing against an independent implementation of the format", "A second reader and writer of the documented format (refimpl.rs) checks everything stored and writes indexes the library must read, extend and compact; the committed dataset is read in full."),
 "C17": ("model-based histories and multi-threaded stress with linearizability check", "Sequential histories compared call by call; real threads with recorded intervals and a linearization search. Thread interleavings are sampled by the machine's scheduler, not enumerated."),
 "C18": ("round trip, differential decoder, mutation of inputs", "Independent encoder and decoder of the format; truncations, bit flips, wrong counts and lengths, arbitrary bytes, under a memory limit proportional to the input."),
 "C19": ("round trip and algebraic relations over drawn inputs", "Prepare/resolve, derive/tokenize and conversions over drawn inputs, also compared with the independent implementation."),
 "C20": ("invariant over recorded requests, metamorphic add/delete", "Every request is recorded and compared with the set of lines the model and the reference implementation allow; an addition and a deletion are replayed from the same state and compared."),
 "C21": ("model-based with a multi-valued backend", "The backend returns several values for drawn entries, written by independent indexes of the same key and label."),
 "C22": ("statistical search over index sizes and rates with exact binomial bounds", "Coverage of n compactions at rate 1/n is compared with the documented guarantee using repeated runs; false alarm probability below 1e-9 per case."),
 "C23": ("generated secrets and ways to drop them, memory searched afterwards", "The memory of the dropped value and the heap blocks freed by the drop are searched for the secret; copies left behind by moves are out of the claim."),
 "C24": ("metamorphic: pairs of histories of the same shape", "A history and a renamed copy of it (other bytes of the same lengths, other keys and labels; additions and deletions, data and links exchanged) must send the same requests up to the names of tokens. Timing and the strength of the ciphertexts are out of the claim."),
 "C25": ("operations nested in callbacks and injected panics, against a model", "Generated operations run inside the interrupt callback and the data filter; user code and the database panic, or the call is abandoned, at every point of generated calls, and the same instance is then reused. A deadlock is seen by a watchdog. Panics are assumed to unwind."),
 "C26": ("recorded requests against bounds, metamorphic comparison of index sizes", "Requests counted against bounds with slack (2 to 4 times what is needed); allocations of the same operation compared on indexes of size n and 8n. Computing time is out of the claim."),
 "C28": ("fault and cut enumeration over searches of generated graphs", "Every request of a generated search fails (before or after) or is cut; the error, what was shown, the tables and the next searches are checked. Double failures are drawn."),
 "C29": ("model-based histories with saved, restored and copied tables under live instances", "One model per copy of the index, saved and restored with its tables; instances outlive the states. Restoration while a call is under way is out of the claim."),
 "C30": ("model-based histories of the dictionary API with faults", "EntryTable and ChainTable at several value lengths against a plain map, with injected backend errors and several values per token. ChainTable::upsert, which panics by design, is not called."),
 "C31": ("model-based histories of the inner layers", "Ordered lists of modifications through the multi-map, graph and index layers over the same tables, against a map on which they are applied in order; every list of up to 5 operations on two values is enumerated. The empty item, which the index never writes and padding deletes, is out of the claim."),
 "C32": ("model-based compactions run by their own steps", "Batches, targets, associations to keep, orders and credentials are drawn; one model per pair of credentials with exact entries and numbers of lines. Nobody else works on the entries of a prepared batch."),
 "C27": ("random histories and failures under a recording trace subscriber", "Every span and event is formatted and searched for 8-byte pieces of all keys and seeds (raw, hexadecimal, base64, number lists), as are errors and the instance's debug text; results are compared with the model. The Debug of a key or seed itself is out of the claim."),
}
NA = {}
lv = {k: "exploration" for k in T}
lv["C07"] = lv["C11"] = lv["C28"] = "fault_enumeration"
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() or h for h in HOOKS]
m = {
 "version": 1,
 "setup_cmd": "bash run.sh setup",
 "hooks": {"guard": "cfg(findex_verif)", "enable": "RUSTFLAGS=\"--cfg findex_verif\" (set by run.sh)", "source_commits": full},
 "checks": [
  {"property": k, "quick_cmd": f"bash run.sh check {k} quick", "thorough_cmd": f"bash run.sh check {k} thorough",
   "technique": "property-based testing: " + t, "level": lv[k], "level_note": n}
  for k, (t, n) in sorted(T.items())],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "Genuine defects found and repaired are listed in known-findings.txt; see DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
