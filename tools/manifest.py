#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None, claimed=True, reason=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note=note, claimed=claimed, reason=reason))

TESTS = "The existing tests make single calls, one after another, on intact fixture files, in one process, and never let a system call fail: "
NOTE = ("Seeded search over simulated executions of the unmodified code (recompiled with a yield before every statement); the system calls below it are a simulated kernel, "
        "whose file semantics (advisory locks, O_APPEND, rename, short and failed writes, crash keeps what the kernel was given) are trusted and compared with the real kernel by a self-test. ")

prop("C01", "Posted article records are all kept, whole, once and in order",
  "Whatever processes and threads post article records to a board and read its list at the same time, every acknowledged record is in the list exactly once, holding exactly what was given, in an order consistent with real time, and records that were there before never change. "
  "A post that reports an error has added nothing, and one cut short by a crash has added the whole record or nothing that any later reader or writer can notice. "
  "Every successful read of the list returns a prefix of the final list which contains everything acknowledged before the read began.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of several posters and readers in up to three processes, all crash points including inside a write, all sequences of failing, short or interrupted system calls, followed by further posts and reads",
  TESTS + "one record is appended to a copy of a fixture and read back.",
  ["pttbbs/record_file.go", "pttbbs/file.go", "filelock/filelock.go", "filelock/filelock_unix.go", "bbs.go"],
  [("append under an exclusive advisory lock, undo of a partial append, realignment after an interrupted one", "pttbbs/record_file.go, AppendFileHeaderFileRecord in pttbbs/file.go"), ("shared lock while reading, whole records only", "OpenFileHeaderFile in pttbbs/file.go"), ("routing of the public calls", "AddArticleRecordFileRecord and ReadBoardArticleRecordsFile in bbs.go")],
  NOTE + "Oracle: exact explanation of the history by the final file of 128-byte records, decoded by an independent decoder.",
  ["results of ReadBoardArticleRecordsFile", "bytes of boards/x/NAME/.DIR"])

prop("C02", "New boards are all kept, whole, once and in order",
  "Whatever processes and threads add boards and read the board list at the same time, every acknowledged board is in the list exactly once with the attributes given, in an order consistent with real time, and boards that were there before never change. "
  "Adding a board that reports an error has added nothing, and one cut short by a crash has added the whole board or nothing that any later reader or writer can notice. "
  "Every successful read of the board list returns a prefix of the final list which contains everything acknowledged before the read began.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of several processes adding and reading boards, all crash points, all sequences of failing, short or interrupted system calls",
  TESTS + "one board is added to a copy of a fixture and read back.",
  ["pttbbs/record_file.go", "pttbbs/board.go", "filelock/filelock.go", "bbs.go"],
  [("append under an exclusive advisory lock with undo and realignment", "AppendBoardHeaderFileRecord in pttbbs/board.go, pttbbs/record_file.go"), ("shared lock while reading, whole records only", "OpenBoardHeaderFile in pttbbs/board.go"), ("attributes of a new board", "NewBoardRecord in pttbbs")],
  NOTE + "Oracle: exact explanation of the history by the final file of 256-byte records.",
  ["results of ReadBoardRecords", "bytes of .BRD"])

prop("C03", "An article file name is never given out twice nor taken from an article",
  "A file name given out for a new article of a board is given to nobody else, whatever the number of processes, the sequence of random numbers or the movement of the clock, and it never belongs to an article that exists already. "
  "The file is there, empty or holding the article's heading, when the call returns, and no other file of the board changes. "
  "If no file can be made the call reports an error instead of repeating forever or giving out a name.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "all interleavings of several allocators, clocks that stand still, jump back or jump ahead, colliding random numbers, crashes and failing system calls",
  TESTS + "a name is allocated once.",
  ["pttbbs/pttbbs_write_article_connector.go", "bbs.go"],
  [("exclusive creation, retry on collision, error otherwise", "CreateBoardArticleFilename and NewArticleRecordWithMap in pttbbs/pttbbs_write_article_connector.go")],
  NOTE + "Clock and random numbers are simulated too, with a small random range so that collisions happen in most runs.",
  ["returned names", "files of the board directory"])

prop("C04", "Readers of an article being replaced see the old text or the new one",
  "While processes and threads replace and read the text of an article at the same time, every successful read returns exactly one of the texts that were written, never a mixture, a part or a longer old tail, and the results agree with some order of the calls. "
  "A replacement that reports an error, or is cut short by a crash, leaves the old text or a beginning of the new one.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of writers and readers in several processes with texts longer and shorter than each other, all crash points, all sequences of failing and short system calls",
  TESTS + "one article is written and read back.",
  ["pttbbs/pttbbs_write_article_connector.go", "pttbbs/pttbbs.go", "filelock/filelock.go", "bbs.go"],
  [("truncate and write under an exclusive lock", "WriteBoardArticleFile"), ("read under a shared lock", "ReadBoardArticleFile")],
  NOTE + "Oracle: linearizability of the history against a text register, with failed and interrupted replacements allowed to leave a prefix.",
  ["results of ReadBoardArticleFile", "bytes of the article file"])

prop("C05", "Comments appended to an article are all kept, whole, once and in order",
  "Whatever processes and threads append comments to an article, replace it or read it at the same time, every acknowledged comment is in the text exactly once and unbroken, in an order consistent with real time, and nothing else changes. "
  "A comment that reports an error is not in the text, not even in part, unless undoing it failed as well, and a comment to an article which does not exist creates nothing. "
  "Every successful read returns a text which the order of the calls explains.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of commenters, writers and readers in several processes, all crash points, all sequences of failing and short system calls",
  TESTS + "one line is appended to a file.",
  ["pttbbs/pttbss_append_new_line.go", "filelock/filelock.go", "bbs.go"],
  [("append under an exclusive lock, undo of a partial append", "AppendBoardArticleFile in pttbbs/pttbss_append_new_line.go")],
  NOTE + "Oracle: linearizability of the history against a text with append, replace and read.",
  ["results of ReadBoardArticleFile", "bytes of the article file"])

prop("C06", "A user's draft is always the whole last saved draft",
  "While processes and threads save, read and delete a draft of a user at the same time, every successful read returns exactly one saved draft, or nothing when it was deleted or never saved, and the results agree with some order of the calls. "
  "A save that reports an error or is cut short by a crash leaves the previous draft or the new one, whole. "
  "Saving or deleting a draft changes no other draft.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of saving, reading and deleting in several processes, all crash points, all sequences of failing and short system calls",
  TESTS + "a draft is written, read and deleted once.",
  ["pttbbs/draft.go", "bbs.go"],
  [("write beside and rename", "WriteUserDraft in pttbbs/draft.go"), ("a missing draft is empty, an unreadable one an error", "ReadUserDraft in pttbbs/draft.go")],
  NOTE + "Oracle: linearizability against a register that may be absent.",
  ["results of GetUserDraft", "bytes of home/x/USER/buf.N"])

prop("C07", "Removing a board removes that board and nothing else",
  "Removing the board at a position of the board list while others add, remove and list boards removes exactly one board, the one at that position at that moment, keeps the order and every byte of the others, and readers see the list before or after it. "
  "A removal at a position that does not exist, or which reports an error, never loses another board, and one cut short by a crash loses no board but the one to be removed and leaves complete records only.",
  ["schedules", "crash_points", "fault_sequences", "histories", "inputs"],
  "all interleavings of removals, additions and listings in several processes, all positions including negative and far too large ones, all crash points and failing system calls",
  TESTS + "one board is removed from a fixture.",
  ["pttbbs/board.go", "pttbbs/record_file.go", "filelock/filelock.go", "bbs.go"],
  [("removal under an exclusive lock with verification of the index", "RemoveBoardHeaderFileRecord in pttbbs/board.go")],
  NOTE + "Oracle: linearizability against a list of records, and a subsequence rule after crashes.",
  ["results of ReadBoardRecords", "bytes of .BRD"])

prop("C08", "Updating an article record changes that record only, and only as asked",
  "Updating the article record at a position changes the attribute that was set and no other attribute of that record, no other record and not the number of records, while other processes post, update other positions and list. "
  "An update of a position which does not exist adds and changes nothing. "
  "An update that reports an error or is cut short by a crash leaves every other record as it was.",
  ["schedules", "crash_points", "fault_sequences", "histories", "inputs"],
  "all interleavings of updates, posts and listings, all positions and attribute values, records with every file mode, money, reference or vote limit, all crash points and failing system calls",
  TESTS + "one attribute of one fixture record is updated.",
  ["pttbbs/file.go", "pttbbs/pttbss_append_new_line.go", "pttbbs/record_file.go", "bbs.go"],
  [("in-place write of one record under an exclusive lock", "UpdateFileHeaderFileRecord in pttbbs/file.go"), ("faithful encoding of what was read", "MarshalBinary of FileHeader in pttbbs/file.go")],
  NOTE + "Oracle: the final file explained record by record; each position has one writer, since reading and updating are two calls.",
  ["results of ReadBoardArticleRecordsFile", "bytes of .DIR"])

prop("C09", "Databases with different homes do not influence each other",
  "A program that opens several databases with different homes, at the same time or one after another, in any order and again and again, gets from each the contents of its own home, and a change made through one affects its own home only. "
  "Opening a database never changes what a database opened before refers to, and a driver that does not exist is an error.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all interleavings, down to single statements, of opening databases and using them from several threads of one program",
  TESTS + "one home is open at a time.",
  ["bbs.go", "pttbbs/pttbbs.go"],
  [("a connector of its own for every database", "Open in bbs.go, NewConnector in pttbbs/pttbbs.go")],
  NOTE + "Every thread has a home to itself, so the exact result of each call is known; every system call is confined to the home of the call that makes it.",
  ["results of every call", "paths of the system calls"])

prop("C10", "Nothing stays open, locked or mapped after a call",
  "When a call has returned, successfully or not, it has closed every file it opened, given up every lock it took and undone every mapping, those excepted that it hands to the caller and that are given up when the caller closes them, whatever failed on the way, so that no sequence of failures exhausts descriptors or locks out others. "
  "Every call of a living process returns, and calls after a crash or a failure work as before.",
  ["fault_sequences", "schedules", "crash_points"],
  "all calls of the library, alone and beside others, with any system call failing, and processes killed at any point",
  TESTS + "no test looks at descriptors or locks or makes a call fail half-way.",
  ["pttbbs/file.go", "pttbbs/board.go", "pttbbs/passwd.go", "pttbbs/fav.go", "pttbbs/userinfo.go", "cache/mmap.go", "filelock/filelock.go"],
  [("deferred close and unlock on every path", "every function that opens a file in pttbbs, formosabbs and cache")],
  NOTE + "The simulated kernel knows every open descriptor, lock and mapping of each process after each call.",
  ["descriptor, lock and mapping tables of the simulated kernel"])

prop("C18", "A lasting failure makes calls fail, honestly and without damage",
  "While a kind of system call keeps failing, or the disk is full, calls that depend on it report an error, and a call that reports success has done exactly what it says. "
  "A call that reports an error has not damaged what was stored, and when the failure is over everything works again on what was there.",
  ["fault_sequences", "configurations", "histories"],
  "all calls of the library under every persistent failure of one or two kinds of system call (all files, or those of one kind), and under every amount of free space",
  TESTS + "no test makes a system call fail.",
  ["pttbbs/record_file.go", "pttbbs/draft.go", "pttbbs/pttbss_append_new_line.go", "pttbbs/pttbbs_write_article_connector.go", "pttbbs/board.go", "pttbbs/fav.go"],
  [("reporting of every failed call, undo of partial appends", "the writing and reading functions of pttbbs")],
  NOTE + "Every thread has a home to itself; each call is compared with a sequential reference model of the whole file tree before and after it.",
  ["results of every call", "the file tree before and after"])

prop("C19", "A failing or slow disk never changes what a query returns",
  "Reading boards, article lists, articles, treasures, users, favorites, drafts, comments, login logs and the other record files returns exactly what is stored, or an error. "
  "It never returns a shortened, empty or garbled result as if it were complete because a read was short, interrupted or failed, and never fails when nothing went wrong.",
  ["fault_sequences", "inputs", "schedules"],
  "all queries over generated file trees under all sequences of short, interrupted and failing opens, reads and locks, and any size of the pieces in which the kernel delivers data",
  TESTS + "every read of a fixture arrives whole and succeeds.",
  ["pttbbs/file.go", "pttbbs/board.go", "pttbbs/passwd.go", "pttbbs/fav.go", "pttbbs/bad_logins.go", "pttbbs/login_recent.go", "pttbbs/userinfo.go", "formosabbs/file.go", "bbs.go"],
  [("whole-record reads, error reporting", "the Open...File functions of pttbbs and formosabbs"), ("collecting articles and comments of a user", "GetUserArticleRecordFile and GetBoardUserCommentRecord in bbs.go")],
  NOTE + "Oracle: an independent decoder and query evaluator over the simulated storage.",
  ["results of every query"])

prop("C20", "A call touches only what it names",
  "A query changes nothing in storage, not even times or permissions, and does not write through what the caller passed to it. "
  "A change touches only the file of the board, article, user or draft that was named, also when the name does not exist, is empty or is a beginning of another one, and leaves no other file behind, whether it succeeds or fails.",
  ["inputs", "histories", "fault_sequences"],
  "all calls of the library in all orders over generated file trees with names that exist, do not exist, are empty or extend each other, with any system call failing",
  TESTS + "each test looks only at the file it expects to change.",
  ["pttbbs/path.go", "pttbbs/pttbbs.go", "pttbbs/draft.go", "pttbbs/pttbbs_write_article_connector.go", "bbs.go"],
  [("construction of every path from the home and the names", "pttbbs/path.go"), ("open flags of every call", "pttbbs")],
  NOTE + "Every system call that could change something is checked against the home and the call that makes it, and the whole file tree is compared before and after each call.",
  ["paths and kinds of system calls", "the file tree before and after", "arguments of the caller"])

exec(open(os.path.join(here, "tools", "more.py")).read()) if os.path.exists(os.path.join(here, "tools", "more.py")) else None

P.sort(key=lambda p: p["line"]["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")
checks = [dict(property=p["line"]["id"], quick_cmd="bash sim/check.sh %s quick" % p["line"]["id"], thorough_cmd="bash sim/check.sh %s thorough" % p["line"]["id"],
               evidence_file="evidence/%s.json" % p["line"]["id"], technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences",
               level="exploration", level_note=p["note"]) for p in P if p["claimed"]]
m = dict(version=1, setup_cmd="bash sim/check.sh build",
  hooks=dict(guard="none needed", enable="no change to /repo: each check copies the working tree, inserts a yield before every statement of the copies, and compiles them with an overlay of the standard library's syscall, time and random layers", source_commits=[]),
  checks=checks,
  not_applicable=[dict(property=p["line"]["id"], reason=p["reason"]) for p in P if not p["claimed"]],
  notes="See DESIGN.md. known-findings.txt lists the defects found and repaired. Replays: bash sim/check.sh replay FILE. Self-tests: bash sim/check.sh selftest.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["line"]["title"]) <= 80, p["line"]["id"]
