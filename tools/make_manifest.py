"""Writes MANIFEST.json from the list below."""
import json
import os

T = {
    "C01": ("monitor of the stored delta after every MAKE against the generated graph", "exploration", "histories of generated MAKE queries; the delta of the database must be the graph the generator meant, compared as labelled directed multigraphs"),
    "C02": ("monitor of typed stored values against the generated literals", "exploration", "typed comparison of every stored property with the generator's value over the documented literal grammar in random layouts"),
    "C03": ("online monitor of wiggle numbers over histories with restarts", "exploration", "numbers in the database and the counter file are followed over histories of good, bad and damaged queries"),
    "C04": ("append-only trace monitor over histories with restarts", "exploration", "every record seen once is compared with its first sight after every later query"),
    "C05": ("invariant monitor: indexes recomputed from the database after every query", "exploration", "index file and loaders against indexes recomputed from the stored nodes"),
    "C06": ("before/after file monitor around rejected queries, twin run without them", "exploration", "file contents around every rejected text and comparison with a twin that never saw it"),
    "C07": ("audit-event and byte-level monitor of queries without MAKE", "exploration", "bytes of all files and every audited write-like operation of the interpreter"),
    "C08": ("outcome monitor of FIND against labels and names in the database", "exploration", "outcome compared with sets computed from what the history stored"),
    "C09": ("rejection monitor over single-offence mutants of well-formed queries", "exploration", "each offence class is put at random places of queries of one to three statements"),
    "C10": ("conservation monitor: tokens of accepted text against stored delta", "exploration", "accepted (mostly edited) texts are read by an independent lenient reader and compared with what was stored"),
    "C11": ("differential monitor over layouts of one query", "exploration", "about ten renderings per query on equal databases"),
    "C12": ("delta and outcome monitor over compositions of clauses", "exploration", "statements of all clauses in any order over clause-like words"),
    "C13": ("acceptance monitor of REPORT against declared handles", "exploration", "declared and near-miss handles in all forms"),
    "C14": ("monitor of the derived search against the generated pattern", "exploration", "process_parsed_find's result compared with the generator's pattern, with and without criteria"),
    "C15": ("directory-tree and outcome monitor of database creation against a model", "exploration", "whole-tree comparison around every creation over related and unusual names"),
    "C16": ("audit-event guard and tree monitor over hostile names", "exploration", "every write-like event of the process is checked against the database's own folder; runs as an unprivileged user inside a scratch folder"),
    "C17": ("directory-tree monitor of deletion against a model", "exploration", "whole-tree comparison around every deletion over wildcard and related names"),
    "C18": ("monitor of listing and scripted selection dialogs against a model", "exploration", "folders with 0 to 55 databases, incomplete ones and stray files; every prompt recorded"),
    "C19": ("isolation monitor over interleaved databases with twins run alone", "exploration", "files of all databases after every step, each database against a twin in a session of its own"),
    "C20": ("crash injection at every file-system call of a query, recovery monitor", "fault_enumeration", "preloaded library ends the process before/after every call (writes: half way); the files and follow-up queries are then judged; process crash, not power loss"),
    "C21": ("fault injection at every file-system call of a query, acknowledgement monitor", "fault_enumeration", "preloaded library makes every call fail in five ways; outcome, files and follow-up queries in the same session are judged"),
    "C22": ("monitor of scripted shell sessions against direct execution", "exploration", "files at every prompt against a twin on which the lines were run directly; some sessions are separate processes on standard input"),
    "C23": ("model-based monitor of database storage operations", "exploration", "histories of batches, wipes and loads against a dictionary"),
    "C24": ("model-based monitor of index operations", "exploration", "histories of additions, wipes and loads against sets"),
    "C25": ("clock monitor: stored creation times against the query's interval, with a shifted clock", "exploration", "preloaded library moves the clock between queries"),
    "C26": ("referential-integrity invariant monitor after every query, constructor probes", "exploration", "every stored relationship after every step of histories; model constructors with every choice of endpoints"),
    "C27": ("differential monitor: one session against split, moved and re-seeded processes", "exploration", "the same history in one session and split over processes with moved files"),
    "C28": ("processor-time monitor over pumped and hill-climbed texts", "exploration", "processor time of each text of up to 300 characters, limit 10 s (slowest seen on the unchanged tree below 0.5 s)"),
    "C29": ("folder-tree, audit-event and process-state monitor with resource-limit faults", "exploration", "whole folder, every write-like event, open files, threads and settings of the process around every query, some under RLIMIT_FSIZE or RLIMIT_NOFILE"),
    "C30": ("byte monitor of damaged files around queries, repair and recovery monitor", "exploration", "one file damaged in one of eight ways, queries against it, then repaired; storage operations likewise"),
    "C32": ("error monitor over single-offence mutants of well-formed queries", "exploration", "kind of the error and the hint in its message for every class of offence at random places"),
    "C33": ("monitor of the parsed form against the generated query", "exploration", "every field of parse_query_string's result against the generator's tree and tokens"),
    "C31": ("stored-delta and processor-time monitor over large queries", "exploration", "well-formed queries with sizes around powers of two and ten; the stored delta must be the generated graph"),
    "C34": ("lock-step schedules at file-system calls, and free runs, of a writer with readers; state monitor at every step", "exploration", "a query is held at each of its file-system calls while the files are judged and other sessions run FINDs; FINDs are held while MAKEs are carried out; free runs of a writer with two readers"),
    "C36": ("system-call fault and crash injection in creations and deletions, recovery monitor", "fault_enumeration", "every file-system call of a sampled creation or deletion is cut short or made to fail on a copy of the folder; the whole tree, the outcome and the recovery of the name are judged"),
    "C37": ("system-call fault and crash injection in storage operations, before/after monitor", "fault_enumeration", "every file-system call of a sampled storage operation is cut short or made to fail on a copy; the file's content is compared with that before and that after the undisturbed operation"),
    "C38": ("system-call fault injection in readings, result monitor", "fault_enumeration", "every file-system call of the load functions and of FINDs on sampled databases is made to fail; results are compared with the undisturbed ones"),
    "C35": ("exception injection at steps of the interpreter, recovery monitor", "fault_enumeration", "KeyboardInterrupt, MemoryError or RecursionError raised at sampled lines, calls and returns, mostly around the writes; files and follow-up queries are then judged"),
    "C39": ("delta, index and answer monitors on large databases", "exploration", "databases of 1,000 to 32,768 nodes (thorough: 80,000), written as queries leave them or grown by queries, then MAKEs, FINDs, ill-formed queries and storage operations"),
    "C40": ("long sessions compared with fresh ones; process monitors", "exploration", "sessions of 1,100 to 2,100 queries (thorough: 9,000), block by block compared with a fresh session, and shell sessions of as many lines; memory, descriptors and threads of the process"),
    "C41": ("concurrent and held schedules of processes and threads on different databases, compared with each alone", "exploration", "processes and threads with databases of their own in one folder run at the same time; queries, creations and deletions are held at each file-system call while another database is used"),
    "C42": ("round-trip monitor of stored records", "exploration", "every record stored by sampled histories is loaded, built into a node, compared, and written out again"),
}

checks = []
for k in sorted(T):
    tech, level, note = T[k]
    checks.append(
        {
            "property": k,
            "quick_cmd": f"./check {k} --tier quick",
            "thorough_cmd": f"./check {k} --tier thorough",
            "technique": tech,
            "level": level,
            "level_note": "Held on the executions produced, whose number and kinds the evidence file records: " + note + ".",
        }
    )
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [],
    "notes": "The checks import the code from /repo's working tree and build nothing there; no hooks in /repo are used. C20, C21, C25, C34 to C38 and C41 compile harness/native/shim.c into a temporary folder on every run.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
