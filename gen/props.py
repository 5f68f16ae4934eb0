import json
P=[]
NA=[]
def p(id,title,st,over,q,why,files,mech,obs=None,na=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None))
    P.append(d)
    if na: NA.append(dict(property=id,reason=na))
S,C,I,H,F,G="schedules","crash_points","inputs","histories","fault_sequences","configurations"
core=["indexer.go","shatter.go","query.go","index.go","internal/shard/indexer.go","internal/shard/poster.go","internal/shard/read_state.go"]
T3="The existing tests index three short documents in one process, once, without faults, and look at one lookup."
p("C01","Shared runs of words are always found",
 "If a document that was added to an index contains a run of words one longer than the similarity length, then looking up the blot of any text made of the same words in the same order (whatever separates them, whatever their case) lists that document. If several documents contain the run, extraction reports them together under that blot. This includes runs at the very start and end of a document.",
 [I,S,G,H],"all document sets, separators, similarity lengths, shard and shatterer counts, flush rates, sessions and schedules of the indexing goroutines",
 T3+" Recall depends on tokenising, blotting, sharding, posting and reading agreeing for every text and every schedule.",
 core+["token/t.go","blotter/circ.go","blotter/interleaved.go"],
 [("tokenise, blot each window, route to shard b%n","shatter.go shatter.do/blot"),("posting lists","internal/shard"),("blot a query text the same way","index.go BlotDoc/Blot, query.go Get")])
p("C02","A lookup lists exactly the documents with that blot",
 "Looking up a blot lists every document that was added and has it, each once, in the order in which they were added, and no other document; a blot nobody has lists none and is not an error. A document of n words has max(0, n - similarity length) blots. Texts with nothing in common share blots only as often as chance in the blot space would have it.",
 [I,S,G,H],"all document sets (including posting lists of more than a thousand documents that span several flushed blocks), configurations, sessions and schedules",
 T3+" Long lists, block boundaries and re-opened lists are never reached.",
 core,[("posting blocks, links and flushing","internal/shard/poster.go"),("walking a list","internal/shard/read_state.go"),("lookup","query.go Get")])
p("C03","Documents keep their identity",
 "A document that is found is reported with the absolute form of the path it was added under (relative to the working directory at that time) and with the exact start and end given. Loading such a result gives exactly the text that was indexed, and loading any other part of it, the empty part included, gives that part; loading a path without a range gives the whole file and its range. This holds for all documents of all sessions, however many there are and whatever their paths share.",
 [I,H,S,G],"all paths (relative, unclean, deep, shared prefixes), several documents per file, offsets up to 32 bits, working directories, sessions and document table flush rates",
 "TestFnames and TestAdder check a handful of records in memory or one flush; nothing checks the path from Add through several sessions and flushes to a query result.",
 ["fnames.go","dmd/adder.go","dmd/t.go","dmd/fields.go","doc.go","indexer.go","query.go"],
 [("path tree","fnames.go addPath/abs"),("document table","dmd/adder.go Add/flush, dmd/t.go Lookup"),("result resolution","query.go, index.go docid2Doc")])
p("C04","Results do not depend on parallelism or schedule",
 "Indexing the same documents in the same order gives indexes that answer every lookup, extraction and statistics request alike, whatever the number of shatterers, the flush rate and the scheduling of goroutines. In particular the documents of a result are in the order of addition.",
 [S,G,I],"all schedules of shatterers and shards, shatterer counts 1 to 12, flush rates, document sets",
 "Tests use one configuration and one uncontrolled schedule; ordering bugs need particular interleavings of several shatterers.",
 ["shatter.go","indexer.go","internal/shard/indexer.go","dmd/adder.go"],
 [("documents are handed to shards in order of document id","shatter.go mono, shatter.send"),("one goroutine per shard","internal/shard/indexer.go Serve")])
p("C05","Adding later is the same as adding at once",
 "An index built in several sessions, each closed and re-opened for adding, answers every lookup, extraction and statistics request as an index built from the same documents in one session. The configuration it was created with is kept. After every session it is complete and readable.",
 [H,S,G,I],"all ways to split a document list into sessions, including empty ones; schedules; configurations",
 "No test re-opens an index for adding.",
 ["indexer.go","internal/shard/indexer.go","internal/shard/poster.go","dmd/adder.go","fnames.go","config.go"],
 [("re-opening","indexer.go openFromConfig"),("re-linking posting lists","internal/shard/poster.go initAppend/readToLink"),("configuration","config.go Write/ReadConfigFromRoot")])
p("C06","Indexing always finishes",
 "Every session of adding documents and closing ends: no schedule of its goroutines and no I/O error makes it hang. Without faults it ends without an error and without a crash, for any document bytes.",
 [S,F,I,G],"all schedules, 1 to 12 shatterers, 1 to 8 shards, any bytes as documents, an I/O error or full disk at any file operation",
 "A test run sees one schedule; deadlocks of the shatterer hand-off need particular ones, and no test has an I/O error.",
 ["shatter.go","indexer.go","internal/shard/indexer.go"],
 [("hand-off in document order","shatter.go shatter.send"),("shutdown","indexer.go Close, shatter.go startShatter"),("acknowledgement per batch","internal/shard/indexer.go Serve")])
p("C07","Extraction reports every duplicate once, most frequent first",
 "Reading an extraction to its end, in batches of any sizes, reports every blot that at least two documents have exactly once, with exactly its documents, and no other blot. Within a shard's blots and overall, the most frequent come first. It always ends, with the end-of-input error and no results alongside, and stays at the end.",
 [I,S,G,H],"all document sets, shard counts, batch size sequences, histories",
 "The one query test takes a single batch from a three document index.",
 ["query.go","internal/shard/index.go","internal/shard/read_state.go"],
 [("merging shards","query.go Next"),("order by count","internal/shard/index.go"),("end of input","query.go Next")])
p("C08","Bounded result buffers lose and repeat nothing",
 "When the caller limits how many documents fit in a result, a lookup gives the first ones that fit and leaves what was in the buffer alone. An extraction then gives each duplicate's documents in consecutive pieces, behind what was in the buffer, which together are exactly its documents; where there is no room for any, nothing is passed over. A result shows nothing of an earlier result whose place in a buffer it takes.",
 [I,S,G],"all document sets, buffer sizes, mixes of buffer sizes and batch sizes",
 "No test limits a buffer.",
 ["query.go","blot.go","internal/shard/read_state.go"],
 [("resuming inside a list","query.go Next, internal/shard/read_state.go")])
p("C09","Simultaneous queries do not disturb each other",
 "Any number of lookups, extractions, statistics and document loads may run at the same time on one open index or on several, in one process or several, and each gives the result it would give alone.",
 [S,I],"all interleavings of 2 to 5 readers at statement granularity, with short reads, over generated indexes",
 "No test uses an index from two goroutines; shared file offsets and caches only misbehave under particular interleavings.",
 ["index.go","query.go","dmd/t.go","internal/shard/index.go","internal/shard/read_state.go","internal/shard/posts.go"],
 [("positioned reads","dmd/t.go Lookup, internal/shard/read_state.go"),("state per query","query.go")])
p("C10","One writer at a time, and never together with readers",
 "An index that is open for adding is open for nobody else; readers share it among themselves. This holds between processes and inside one, however the path to the index is spelled. Whoever opens it sees exactly the sessions closed before.",
 [S,H],"all interleavings of 2 to 4 clients in 1 to 4 processes, with appends and reads, working directories and spellings of the path",
 "The lock test takes one lock in one process.",
 ["lock/file.go","lock/unix.go","index.go","indexer.go","config.go"],
 [("exclusive lock to add","indexer.go IndexerFromConfig/openFromConfig"),("shared lock to read","index.go OpenIndex"),("lock held until everything is written","indexer.go Close")])
p("C11","No lock outlives its holder",
 "After an open, create, add, read or remove ended - successfully, with an error, or by the death of its process - the index can be locked again. A lock that is unlocked or closed is free, and one that is held is not given to others.",
 [C,F,H,S],"crash or I/O error at any file operation of any operation, damaged indexes, and all short histories of the lock API by 1 to 3 processes",
 "The lock test unlocks once, without failure and without a second party.",
 ["lock/file.go","lock/unix.go","index.go","indexer.go","remove.go"],
 [("release on failure","indexer.go abort, index.go OpenIndex"),("release on close","indexer.go Close, index.go Close")])
p("C12","Creating an index is all or nothing",
 "If the process creating an index dies at any point, then afterwards either opening it fails, or it is complete: it has every document that was added. In either case the place can be cleared and the index created anew.",
 [C,S,I],"process death at every file operation of creation, with whole and torn last writes",
 "No test kills a process.",
 ["indexer.go","config.go","internal/replace/replace.go","index.go"],
 [("the configuration is written last","indexer.go flush"),("atomic replacement","internal/replace/replace.go")])
p("C13","A killed append loses nothing that was there",
 "If a process adding to an existing index dies at any point, all documents of earlier sessions are still found, in order, and anything else found was really added by the session that died. Lookup and extraction agree with each other about it.",
 [C,S,I,H],"process death at every file operation of an append, with whole and torn last writes, at every flush state of the posting lists and the document table",
 "No test kills a process.",
 ["indexer.go","internal/shard/poster.go","internal/shard/indexer.go","dmd/adder.go","internal/replace/replace.go","fnames.go"],
 [("posting blocks are linked only by the table replaced at close","internal/shard"),("document records precede what refers to them","indexer.go flush, dmd/adder.go"),("atomic replacement","internal/replace/replace.go")])
p("C14","An index can be added to after crashes",
 "After any sequence of sessions of which some died, the next session can add to the index, and then every document of every session that was closed is found under its own identity. Remains of dead sessions never turn into wrong documents.",
 [C,H,S,I],"histories of up to five sessions with up to four deaths at any file operations",
 "No test kills a process, let alone several in a row.",
 ["indexer.go","internal/shard/poster.go","internal/shard/indexer.go","dmd/adder.go","dmd/t.go","fnames.go"],
 [("ids are given after what is on disk","dmd/adder.go NewAdder"),("posts of dead sessions are ignored","internal/shard")])
p("C15","What was closed survives loss of power",
 "When closing an index reported success, all its documents are still found after a loss of power at any later time, also if I/O errors kept something from becoming durable before: then success is not reported. A loss of power while a session is under way costs nothing of earlier sessions, and a creation is complete or refused.",
 [C,F,H,I],"loss of power at every file operation and I/O errors followed by loss of power, with any subset of the writes, truncations and directory entries not yet synced lost or torn",
 "No test can lose power.",
 ["indexer.go","internal/shard/indexer.go","dmd/adder.go","internal/replace/replace.go"],
 [("syncing files and directories in order","internal/replace/replace.go, internal/shard/indexer.go flushInd, dmd/adder.go flush, indexer.go flush")])
p("C16","Success means success",
 "If adding documents and closing the index reported no error, every document is there, even though I/O errors or a full disk happened in between. An error that cost a document is reported by the operation or at the latest by closing.",
 [F,S,I,H],"one or two I/O errors or full disks (single, repeated or lasting) at any file operations of a session",
 "No test has an I/O error.",
 ["indexer.go","internal/shard/indexer.go","internal/shard/poster.go","dmd/adder.go","fnames.go","config.go"],
 [("posts that could not be flushed are kept","internal/shard/poster.go"),("errors reach Close","indexer.go Close/flush")])
p("C17","A failed session does no harm",
 "When a session fails with I/O errors or a full disk, all documents of earlier successful sessions are still found, and later sessions can add to the index again with every document found under its own identity.",
 [F,H,S,I],"histories of up to five sessions with up to three failing ones, errors at any file operations",
 "No test has an I/O error.",
 ["indexer.go","internal/shard/poster.go","internal/shard/indexer.go","dmd/adder.go","internal/replace/replace.go"],
 [("atomic replacement","internal/replace/replace.go"),("flushes can be repeated","internal/shard/poster.go, dmd/adder.go")])
p("C18","Read errors are errors, not wrong answers",
 "When reading the index fails, the operation that met the failure reports an error; no lookup or extraction returns fewer, more or other documents because of it. Later operations on the same index are right again once the fault is gone, and short reads change nothing.",
 [F,S,I],"I/O errors at any read, seek, open or stat of a reading process, and short reads, over generated reading programs of one or two goroutines",
 "No test has a read error.",
 ["query.go","index.go","dmd/t.go","internal/shard/read_state.go","internal/shard/index.go","internal/shard/posts.go","stats.go"],
 [("errors passed up","query.go Get/Next, internal/shard/read_state.go Next, dmd/t.go Lookup")])
p("C19","Statistics match what was added",
 "The statistics of an index give the number of documents added, of distinct (document, blot) pairs, of nodes of the tree of paths and of possible blots, and the mean and deviation of documents per blot, over the whole history of the index.",
 [H,I,G,S],"all histories of sessions, including empty ones, and configurations",
 "No test looks at statistics.",
 ["stats.go","index.go","dmd/t.go","fnames.go","internal/shard/index.go"],
 [("counts","index.go Stats"),("document count","dmd/t.go NumDocs")])
p("C20","Creating an index does not touch what is there",
 "Creating an index where an index, a directory or a file already is fails and changes nothing there. Of several simultaneous creations of one index exactly one succeeds, and the index then has exactly its documents.",
 [S,I,G],"all interleavings of 1 to 3 creators in 1 to 3 processes, through each way of creating (library and command), over each kind of thing in the way",
 "No test creates an index twice.",
 ["indexer.go","cmd/dupi/index.go","lock/file.go","config.go"],
 [("mkdir refuses what exists","indexer.go IndexerFromConfig"),("lock","indexer.go IndexerFromConfig")])
p("C21","Removal removes the index and nothing else",
 "Removing an index removes all of it and nothing outside it, and waits for or is refused by nobody's half-done work: no reader or writer that has the index open loses it under its hands. After a successful removal the place is free for a new index. That nothing more can be written does not keep an index from being removed.",
 [S,F,H],"all interleavings of up to 4 clients in up to 4 processes that create, add, read and remove, and I/O errors while removing",
 "No test removes an index that someone else uses.",
 ["remove.go","index.go","indexer.go","lock/file.go"],
 [("removal under the lock","remove.go")])
p("C22","Blots are located exactly in their documents",
 "Finding a blot in a document gives positions relative to the document's start whose text, blotted on its own, gives that blot, for every blot of every document and wherever in a file the document lies. A blot that is not there gives none. When the document cannot be read this is an error, on that call only.",
 [I,F,S,G],"all documents (with offsets in shared files), blots, goroutines searching at the same time, read errors, short reads and changed or missing source files",
 "No test finds a blot in a document.",
 ["index.go","doc.go","blotter/circ.go","blotter/interleaved.go","token/t.go"],
 [("locating","index.go FindBlot/FindBlots"),("loading","doc.go Load")])
p("C23","What the index command reports is so",
 "When the index command exits with success, every visible file under the paths it was given is in the index, under its own path and whole; files and directories whose names start with a dot are left out. If a path does not exist or a file cannot be read or added it exits with failure, and what it was able to add is kept.",
 [I,F,G,H],"all directory trees, working directories, ways to name paths and to configure, adding runs, and I/O errors at any file operation",
 "The command has no tests.",
 ["cmd/dupi/index.go","cmd/dupi/dupi.go","indexer.go","config.go"],
 [("walking","cmd/dupi/index.go doPath/mkWalkFn"),("exit code","cmd/dupi/dupi.go")])
p("C24","The commands agree with each other and with the documents",
 "Extract lists every duplicate blot with its documents; unblot shows, for a blot, exactly the texts that have it and the documents they are in (all of them, or those in several documents); blot prints the blots of a text as the index has them, with their positions; like lists, for each file, exactly the documents that have a run of its text (one word longer than the similarity length) in common with it; inspect prints the statistics. They do so for the index that is given, or else that DUPIROOT names, or else that below the home directory. Together they hold for every index and text, also when run at the same time.",
 [I,S,H,G],"all document trees, query texts made of pieces of documents, options, and interleavings of up to three commands",
 "The commands have no tests.",
 ["cmd/dupi/extract.go","cmd/dupi/unblot.go","cmd/dupi/blot.go","cmd/dupi/like.go","cmd/dupi/inspect.go","index.go","query.go"],
 [("the commands","cmd/dupi")])
p("C25","An index can be moved and copied",
 "An index that was moved or copied to another place answers there exactly as at its old place, can be added to and removed there, and doing so changes nothing at the old place, whether the original or another index is there.",
 [H,G,I],"moves and copies to other names, depths and roots, followed by reading, adding or removing, with and without something at the old place",
 "No test moves an index.",
 ["config.go","index.go","indexer.go","remove.go"],
 [("the root is where the index was opened","config.go ReadConfigFromRoot")])
p("C26","The document table keeps every record under its number",
 "A record added to the document table is found under the number Add gave it, after any number of flushes, closes and re-opens, also when some of them failed with I/O errors or died. Numbers are given without gaps, starting at one, and a number whose record was lost in a crash is never answered with another record that was acknowledged under a different number.",
 [F,C,H,I],"histories of up to five openings with adds, closes and retries, flush rates, I/O errors, full disks and deaths at any file operation",
 "TestAdder adds a few records and flushes once.",
 ["dmd/adder.go","dmd/t.go","dmd/fields.go"],
 [("position by number","dmd/adder.go flush"),("numbers after what is on disk","dmd/adder.go NewAdder")])
p("C27","A file that was cut short is noticed",
 "When a file of an index has been cut short, reading gives an error wherever the missing part is needed; documents that are found are right and under their own identity, and no operation crashes or hangs.",
 [F,I,H],"cuts of any file of generated indexes at any position",
 "No test has a damaged index.",
 ["index.go","query.go","fnames.go","dmd/t.go","internal/shard/index.go","internal/shard/read_state.go","internal/shard/posts.go"],
 [("reads that come up short are errors","dmd/t.go Lookup, internal/shard")])
p("C28","Nothing stays behind",
 "After every operation on an index has ended - successful or failed, closed indexers and indexes included - the process has no file of the index open and no goroutine of it running, and the directory of the index has no files in it but those an index consists of (where removing them did not fail).",
 [F,H,S],"every operation, on sound and damaged indexes, with an I/O error or full disk at any file operation",
 "No test looks at open files or goroutines, and error paths are not run at all.",
 ["indexer.go","index.go","remove.go","internal/shard/indexer.go","internal/shard/index.go","dmd/t.go","shatter.go","lock/file.go"],
 [("closing on failure","indexer.go abort/flush, index.go OpenIndex, internal/shard/indexer.go Discard")])
p("C29","Configurations which cannot work are refused",
 "Creating or opening an index with a configuration, given through the library, a configuration file or the command line, either fails with an error that leaves nothing behind, or the index works: documents can be added, closing succeeds, and they are found. No configuration makes a call crash, hang or lose documents.",
 [G,I,S],"configurations whose numbers (shards, shatterers, similarity length, interleaving, flush rate) and tokenizer name are negative, zero, inconsistent, at or beyond limits, or right, through each way of giving one",
 "The tests use the default configuration.",
 ["config.go","indexer.go","index.go","blotter/config.go","token/config.go","cmd/dupi/index.go"],
 [("checking","config.go check"),("before anything is created","indexer.go IndexerFromConfig")])
p("C30","Commands which succeed did all they were to do",
 "When a command exits with success, its output is complete and right. When its output could not be written, or the index or a file it was to look at could not be read, it exits with failure. What it printed before that is right as far as it goes.",
 [F,I,S],"every command with its options over generated indexes and texts, errors and full disks while writing output, errors while opening, reading and seeking, missing and changed files",
 "The commands have no tests.",
 ["cmd/dupi/dupi.go","cmd/dupi/extract.go","cmd/dupi/unblot.go","cmd/dupi/blot.go","cmd/dupi/like.go","cmd/dupi/inspect.go"],
 [("output errors","cmd/dupi/dupi.go output"),("exit code","cmd/dupi/dupi.go main")])
p("C31","What is closed stays closed",
 "After an index or indexer was closed or removed, closing, removing or adding through it again fails with an error and does nothing: it disturbs no index that others have open or have since created at the same place, gives up no lock of theirs, and neither crashes nor hangs. This also holds when several do so at the same time: at most one of them ends it.",
 [H,S],"histories of create, add, read, close and remove by 1 to 3 processes in which handles are used again after they were closed or removed, under all schedules",
 "No test uses a closed index.",
 ["index.go","indexer.go","remove.go","lock/file.go"],
 [("closed once","index.go Close, indexer.go Close/Add, remove.go")])
p("C32","Damage crashes and hangs nobody",
 "Whatever bytes the files of an index have come to hold, opening, reading and adding to it end, with an error or with results, without a crash, without hanging and without memory out of proportion to the index; and commands exit.",
 [I,F,H],"flipped, overwritten, inserted, dropped, swapped and appended bytes and numbers at any place of any file of generated indexes, followed by reading, adding or commands",
 "No test has a damaged index.",
 ["index.go","fnames.go","dmd/t.go","internal/shard/index.go","internal/shard/posts.go","internal/shard/poster.go","internal/shard/read_state.go","doc.go"],
 [("bounds of what is read","fnames.go breadFnames, internal/shard/posts.go readNext, index.go docid2Doc")])
p("C33","Indexes and blots mean the same in every version",
 "An index that was written in the format in use, whichever program and version wrote it and however it laid out its blocks, is read, and can be added to, with every document found under its own identity and number; what is written now reads, by that format, as exactly what was added. The blot of a run of words is the same number in every version, and a configuration names the files where they are.",
 [H,I,G,S],"histories of sessions written in turn by the code and by an independent implementation of the format (with free layout and gaps in the document numbers, up to 66000 documents in a list, document numbers and file offsets near the ends of their ranges), configurations, texts",
 "The tests only read what the same code wrote a moment before.",
 ["config.go","fnames.go","dmd/adder.go","dmd/t.go","internal/shard/indexer.go","internal/shard/poster.go","internal/shard/posts.go","internal/shard/index.go","shatter.go","blotter/circ.go","blotter/interleaved.go"],
 [("formats","internal/shard, dmd, fnames.go, config.go"),("blots","blotter/circ.go, shatter.go")])
p("C34","What is too large to record is refused, not recorded wrongly",
 "A file whose end does not fit the 32 bits in which ends are recorded is not indexed: indexing it, looking for it or showing its blots with the program exits with failure, loading it as a whole document is an error, and everything else in the index is as it would be without it. When the numbers for documents (32 bits) are used up, adding is an error; no number is given twice, and what was added before stays as it was.",
 [I,H,S],"sparse files of 4 GiB to 1 TiB in indexed trees, histories of sessions that begin within twenty numbers of the last, configurations and schedules",
 "No test has so much of anything; with simulated files it costs nothing.",
 ["doc.go","dmd/adder.go","cmd/dupi/index.go","cmd/dupi/like.go","cmd/dupi/blot.go","indexer.go","shatter.go"],
 [("offsets of documents","doc.go Load, cmd/dupi/index.go mkWalkFn"),("document numbers","dmd/adder.go Add/NewAdder")])
p("C35","A mail archive is imported whole, or that it was not is reported",
 "The importer (dupenron) exits with success only if its index then holds one document for each record of the archive, in order, under the archive's absolute path and within the record's range of bytes, with exactly the blots of the message's body, where they can be found again. Archives that are malformed or cannot be read, an index that cannot be written or is there already give failure, and the latter is left alone. With -o it prints the first records as they are, or fails.",
 [I,F,S],"archives of records with and without headers, quoted and plain, line ends, empty lines, malformed records; errors at any file operation; schedules",
 "The importer has no tests.",
 ["cmd/dupenron/main.go","indexer.go"],
 [("import","cmd/dupenron/main.go indexEnron"),("printing","cmd/dupenron/main.go oEnron")])
p("C90","Words are told from other text the same way everywhere",
 "Splitting a text into tokens covers it completely and without overlap, and separates words from other runes by the same rule wherever the text is cut off or embedded.",
 [I],"all byte strings and offsets","TestToken looks at a few strings.",
 ["token/t.go","token/config.go"],[("tokeniser","token/t.go Tokenize")],
 na="a pure function of its input: no schedule, clock, I/O or fault takes part, so there is nothing to simulate (what it means for users is covered through C01, C02, C22 and C24)")
p("C91","A blot depends only on the words of its window",
 "The blot after a word is a function of the last words only, as many as the similarity length, independent of what came before.",
 [I,G],"all word sequences and blotter configurations","TestCirc compares two short sequences.",
 ["blotter/circ.go","blotter/interleaved.go","blotter/config.go"],[("circular window","blotter/circ.go")],
 na="a pure function of a word sequence: no schedule, clock, I/O or fault takes part (its consequence, that a run of words is found wherever it occurs, is C01)")
p("C92","Counting Bloom filters never undercount",
 "The retired in-memory filters and trigram sets never report a member as absent.",
 [I],"all insertions","Two small tests.",
 ["attic/ibloom","attic/trigram","attic/bposts.go"],[("filters","attic/ibloom, attic/trigram")],
 na="retired single-threaded in-memory code which no part of the system uses; nothing nondeterministic takes part")
p("C93","Locks exclude on Windows as they do on Unix",
 "The Windows implementation of the index lock gives the same guarantees as the Unix one.",
 [S],"all schedules","The tests run on Linux.",
 ["lock/windows.go"],[("LockFileEx","lock/windows.go")],
 na="the code is only compiled for Windows and calls its kernel directly; it can be neither built into the simulator nor run in this sandbox")
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
lv={"C12":"fault_enumeration"}
notes=json.load(open('/tmp/notes.json')) if False else {}
checks=[]
for d in P:
    if any(n["property"]==d["id"] for n in NA): continue
    over=d["quantifier"]["over"]
    faults = "fault_sequences" in over or "crash_points" in over
    checks.append(dict(property=d["id"],quick_cmd="./check %s quick"%d["id"],thorough_cmd="./check %s thorough"%d["id"],
      technique="deterministic simulation of the rewritten program: seeded schedules"+(", injected faults" if faults else "")+", reference model",
      level="exploration",
      level_note="Seeded sampling of "+d["quantifier"]["text"]+". Real code except scheduler, synchronisation, file system, clock and process, which are simulated (DESIGN.md, trusted base)."))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=NA,
 notes="No hooks in /repo: the checks rewrite a scratch copy of its working tree (tool/) so that every source of nondeterminism goes to the simulator (sim/).")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write("\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P),len(checks))
