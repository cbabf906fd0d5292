prop("C11", "All articles and comments of a user are found, and nobody else's",
  "Collecting the articles or comments of a user, over all boards, one board or one article, returns each one stored when the call began, nothing that was never stored, nothing of a user with a similar name, and each in the order and with the number it has in its board or article. "
  "Boards without articles, articles without comments or without a file, deleted articles and boards, and lines that are no comments or have a time that does not exist, do not stop or shift it. "
  "What others post while it runs is included as a whole or not at all, and never hides what was there before.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all interleavings of collecting with posting, commenting and adding boards in other processes, over generated boards, articles, texts and user names that extend each other, with failing, short and interrupted system calls",
  TESTS + "one collection runs on a fixture with a handful of comments.",
  ["bbs.go", "user_comment_record.go", "user_article_record.go", "pttbbs/file.go", "pttbbs/pttbbs.go"],
  [("walk over boards, articles and lines", "GetUserArticleRecordFile, GetUserCommentRecordFile and GetBoardUserCommentRecord in bbs.go"), ("recognition of comments", "user_comment_record.go")],
  NOTE + "Oracle: an independent collector over the simulated storage at the beginning and the end of each call.",
  ["results of GetUserArticleRecordFile, GetUserCommentRecordFile, GetBoardUserCommentRecord, GetBoardArticleCommentRecords"])

prop("C12", "Favorites show the stored tree with the boards it names, or an error",
  "Reading the favorites of a user returns exactly the stored tree of folders, lines and boards in its order, and each board entry names the board at that position of the board list, or none if there is no such board. "
  "This holds while boards are added and while another program replaces the favorites, when the result is that of one moment. "
  "Damaged favorites are an error, never a part of the tree, and no favorites at all are an empty list.",
  ["inputs", "schedules", "fault_sequences"],
  "all trees, all damages to the file, every position of boards including none and far too large ones, all interleavings with adding boards and replacing the file, and failing, short and interrupted system calls",
  TESTS + "one fixture with a few entries is decoded.",
  ["pttbbs/fav.go", "bbs.go", "pttbbs/pttbbs.go"],
  [("decoding of nested folders with checked bounds", "pttbbs/fav.go"), ("board names from the board list", "ReadUserFavoriteRecordsFile in pttbbs")],
  NOTE + "Oracle: an independent decoder of favorites applied to every state the file and the board list may have had during the call.",
  ["results of ReadUserFavoriteRecords"])

prop("C13", "Damaged files lead to an error or a right answer, never a crash",
  "Whatever is in the files of a BBS, torn, overwritten, cut, extended, replaced by a directory or gone, every call ends, without a panic and without ending the program. "
  "A query returns an error or, for every whole record in the file, exactly what can be read of it, neither inventing nor dropping records, and changes nothing. "
  "A change next to damage does what it says or reports an error, and leaves the rest of the damaged file alone.",
  ["inputs", "histories", "fault_sequences"],
  "all damages to one or several files of a generated home, followed by queries and changes, with failing, short and interrupted system calls",
  TESTS + "all fixtures are intact.",
  ["pttbbs/file.go", "pttbbs/board.go", "pttbbs/passwd.go", "pttbbs/fav.go", "pttbbs/bad_logins.go", "pttbbs/login_recent.go", "pttbbs/userinfo.go", "formosabbs/file.go", "cstr.go", "bbs.go"],
  [("bounds checks of every decoder", "the Unmarshal and New... functions of pttbbs and formosabbs")],
  NOTE + "Oracle: independent decoders of whole records; where text is damaged, only its being undamaged parts are compared.",
  ["results of every call", "the file tree before and after"])

prop("C14", "Shared memory shows what was stored, in the right place, until closed",
  "What one process stores in a shared memory segment or mapped file is what every process that has it open reads at the same place, and nothing else changes, also when others open, close or remove it. "
  "Opening something that does not exist or is too small is an error and creates nothing, and a new segment or file has the size that was asked for. "
  "The users, names, money and status read through the cache are those stored at the offsets of the C structures, a status handed out keeps its values, and closing undoes every mapping.",
  ["schedules", "histories", "configurations", "fault_sequences", "inputs"],
  "all interleavings of creating, opening, reading, storing, closing and removing in several processes, all settings of alignment, size and hash bits, all user numbers including those that do not exist, and failing system calls",
  TESTS + "one mapping is made, read and closed.",
  ["cache/cache.go", "cache/mmap.go", "cache/systemvshm.go", "pttbbs/cache.go", "pttbbs/userinfo.go"],
  [("mapping and its undoing", "cache/mmap.go, cache/systemvshm.go"), ("offsets from the settings", "NewCache in pttbbs/cache.go"), ("decoding of a status", "pttbbs/userinfo.go")],
  NOTE + "Mapped files and segments are simulated memory shared by the simulated processes. Oracle: a byte array per object and an independent layout of the C structures.",
  ["bytes of every handle", "values of pttbbs.Cache"])

prop("C15", "The server gives tokens and information only to and about the right user",
  "A request for a token is granted exactly when a stored user has the name and the password given, and the token is signed, names that user and expires 30 minutes later. "
  "Information about a user is that of the stored user with exactly that name, and the list of boards is the stored list. "
  "This holds for requests served at the same time, after failures while the server starts (then lists are whole or absent, and nobody gets in who should not), and whatever else is requested.",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "all interleavings, down to single statements, of requests to one or two servers, with names and passwords that are wrong, empty, cut, extended or of deleted users, clock jumps, and failing, short and interrupted system calls while a server starts",
  "The only tests of the server parse a path; none sends a request, let alone several at once.",
  ["serverlet/main.go", "serverlet/route_token.go", "serverlet/route_users.go", "serverlet/route_boards.go", "pttbbs/passwd.go", "crypt/bbscrypt.go"],
  [("password check before a token", "postToken in serverlet/route_token.go, VerifyPassword in pttbbs/passwd.go"), ("claims and signature", "newAccessTokenWithUsername in serverlet/route_token.go"), ("exact lookup", "findUserecByID in serverlet/route_token.go")],
  NOTE + "The real handlers are called without a network. Oracle: an independent reader of the password file, password hashes made with the C library, and the public key.",
  ["responses of the HTTP server"])

prop("C16", "What is posted with the tool is listed and complete, or reported as failed",
  "When bbstool prints the name of a new article, exactly one record with that name, owner, date and title is in the list of the board and the file holds exactly the text given. "
  "When it fails it says so and prints no name, every listed article has a file that holds the text or a beginning of it, nothing else is left behind than files of posts that failed, and nothing else changes. "
  "The same holds for programs that create, add and write an article, at the same time, and what the tool shows is what is stored, or an error.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of runs of the tool and of posting programs in several processes, all crash points, all sequences of failing, short and interrupted system calls, missing arguments and homes, clock jumps and colliding random numbers",
  "No test runs the tool, and the calls it makes are tested one by one.",
  ["cmd/bbstool/main.go", "cmd/bbstool/articles.go", "pttbbs/pttbbs_write_article_connector.go", "bbs.go", "big5.go"],
  [("order of the steps and reporting", "addBoardArticle in cmd/bbstool/articles.go"), ("lists and articles shown", "cmd/bbstool"), ("conversion that keeps all text", "Utf8ToBig5 in big5.go")],
  NOTE + "The real main function runs with its own command line and output. Oracle: the history of runs explained by the final board directory.",
  ["output of the tool", "files of the board directory"])

prop("C17", "File locks exclude, share, wait, and end when they should",
  "An exclusive lock on a file is never held together with another lock on it through any other handle, in this process or another one, shared locks are held together, and locks exclude programs that lock the same files with flock. "
  "A lock that is not free is waited for, also across signals, and granted once it is; unlocking, closing or the end of the process gives it up. "
  "A lock call that reports success has the lock, and one that reports an error has not.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of locking, converting, unlocking and closing through several handles, threads and processes, and through other programs, all crash points, and failing and interrupted system calls",
  TESTS + "one lock is taken and given up.",
  ["filelock/filelock.go", "filelock/filelock_unix.go"],
  [("flock with retry when interrupted", "filelock/filelock_unix.go")],
  NOTE + "Oracle: the intervals in which each handle certainly holds a lock, from the recorded history.",
  ["results of Lock, RLock and Unlock"])

for id, title, statement, text, why, files, mech, reason in [
 ("N01", "Password hashes equal those of the C library's DES crypt",
  "For every password and every salt the hash is the one the C library computes.", "all passwords and salts", "Tests try a few.", ["crypt/bbscrypt.go", "crypt/const.go"], [("DES rounds", "crypt")],
  "A pure function of two byte strings: no schedule, clock, I/O or fault takes part. C15 and C18 compare some hashes as part of logins, which does not decide it."),
 ("N02", "Text survives conversion between UTF-8 and Big5",
  "Every text of Big5 characters is the same after conversion to Big5 and back, and converting arbitrary bytes never fails.", "all texts", "Tests try a few characters.", ["big5.go", "cstr.go"], [("conversion tables", "golang.org/x/text")],
  "A pure function of one byte string: no schedule, clock, I/O or fault takes part."),
 ("N03", "Removing ANSI escapes removes them and nothing else",
  "The filtered text is the text without its escape sequences.", "all texts", "Tests try a few.", ["ansi.go"], [("regular expression", "ansi.go")],
  "A pure function of one string: no schedule, clock, I/O or fault takes part."),
 ("N04", "Records survive encoding and decoding",
  "Decoding what was encoded from a user, board or article record gives that record, every field.", "all field values", "Tests try fixture records.", ["pttbbs/passwd.go", "pttbbs/board.go", "pttbbs/file.go"], [("MarshalBinary and Unmarshal", "pttbbs")],
  "A pure function of one value: no schedule, clock, I/O or fault takes part. The fields stored and read through the library are compared in C01, C02, C08 and C19."),
]:
    prop(id, title, statement, ["inputs"], text, why, files, mech, "", claimed=False, reason=reason)
