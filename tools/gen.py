#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import catalog  # noqa: E402

P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(),
         observe=(), na=None, note=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, state=state,
                  observe=observe, na=na, note=note))


L = "lib/daeso/"

prop("C01", "A saved corpus reads back as the same corpus",
     "Whatever sequence of edits produced it, a parallel corpus that was saved reads back - in another process, from another working directory, through relative, absolute or symlinked names, in every loading mode, by name or from an open file - with exactly the same pairs in the same order, alignments, relation labels, meta-data, graphbank references and graphs. Saving changes nothing in memory, uses relative or absolute graphbank paths as asked, and produces well-formed XML in which every graphbank used is listed.",
     ["inputs", "histories", "configurations"],
     "for every corpus, history of edits, text content, file layout (directories, links, absolute or relative paths), buffer size and number of bytes a read returns",
     "The tests save a handful of fixed corpora to a temporary file next to the data and compare a few attributes; the space of contents, edit histories, layouts and short reads is unbounded.",
     [L + "pgc/corpus.py", L + "pgc/graphpair.py", L + "utils/etree.py", L + "gb/graphbank.py"],
     [("event-driven corpus reader", L + "pgc/corpus.py: PGCParser"), ("corpus writer", L + "pgc/corpus.py: PGCGenerator"), ("XML writer", L + "utils/etree.py: write")],
     [("graph pairs", "ordered list of pairs, with alignments as labelled edges", L + "pgc/corpus.py, graphpair.py")],
     ["bytes of the saved file", "corpus object read back"])

prop("C02", "An interrupted or failed save leaves a complete old or new corpus",
     "When saving a corpus - directly, or by the tools that relocate, copy or split corpora - is killed or interrupted from the keyboard at any point or meets any failing write, close, open or rename or a full disk, the target file afterwards is either the complete previous version or the complete new one, and no other existing file changed. The target keeps its permissions, and a write protected one is not replaced. Unless it is killed, or fails a second time while cleaning up, no partial file is left behind. A save that did not happen is reported, and a corpus whose save failed is unchanged in memory and can be saved again.",
     ["crash_points", "fault_sequences", "inputs"],
     "for every point at which the process can be killed, every failing system call or pair of them, every amount of free disk space, old and new version, buffer size",
     "The tests never fail a write; a crash or full disk between truncating the file and the last flush cannot be provoked from a unit test.",
     [L + "utils/opsys.py", L + "utils/etree.py", L + "pgc/corpus.py", "bin/pgc_chdir.py", "bin/pgc_cp.py", "bin/pgc_split.py"],
     [("write to a temporary file, then rename over the target", L + "utils/opsys.py: replacing"), ("XML writer", L + "utils/etree.py: write")],
     [], ["directory contents after the crash", "exit status and error output"])

prop("C03", "Damaged or unreadable corpus input is never half accepted",
     "Reading a corpus whose file or graphbanks are missing, unreadable, truncated, ill-formed or inconsistent (unknown graphbank, graph or format, missing attributes) or whose reading fails midway reports an error instead of delivering a corpus that lacks something. The corpus object that was being read into is as it was before, and reading the repaired input afterwards gives the exact corpus.",
     ["inputs", "fault_sequences", "histories"],
     "for every damage to the stored bytes, every failing open or read, in every loading mode, reading into new and into already filled corpora",
     "The tests read intact files plus a few fixed malformed ones and never fail a read.",
     [L + "pgc/corpus.py", L + "gb/graphbank.py", L + "gb/parser.py", L + "gb/graphml.py"],
     [("parser errors and restoring the corpus", L + "pgc/corpus.py: ParallelGraphCorpus.read, PGCParser"), ("check for missing graphs", L + "gb/parser.py: _check_for_unresolved_graphs")],
     [], ["exception or corpus returned", "corpus object after the failure"])

prop("C04", "Graphbanks load completely and exactly, or report what is wrong",
     "Loading a graphbank gives exactly the graphs that are in its file - nodes, edges, tokens, labels, attributes with their defaults, roots - however the bytes arrive (one read, many short reads, pieces cut anywhere) and, when only selected graphs are wanted, exactly those, each pair of graphs waiting for one receiving it. A truncated, ill-formed or unreadable file, an unknown format or a wanted graph that is missing is reported, leaves no graphs behind, and loading works once the file is repaired.",
     ["inputs", "fault_sequences", "schedules"],
     "for every graphbank, damage, cut points of the incoming bytes, failing system call and selection of graphs",
     "The tests parse two fixed graphbanks in one piece; arrival in pieces, damage and failing reads are not exercised.",
     [L + "gb/graphbank.py", L + "gb/graphml.py", L + "gb/parser.py", L + "gb/graphstub.py"],
     [("incremental expat parser", L + "gb/parser.py, graphml.py"), ("loading into a fresh table", L + "gb/graphbank.py: load"), ("stub replacement", L + "gb/graphstub.py")],
     [], ["graphs in the graphbank", "exception"])

prop("C05", "All ways of loading a corpus agree",
     "Loading a corpus completely, sparsely or without graphs gives the same pairs, alignments, labels and meta-data, and complete and sparse loading give equal graphs. Graphbank files are opened only when the mode requires it, each at most once per load, and two pairs that refer to the same graph of a graphbank share one graph object, in every mode and whether or not unused graphs are loaded.",
     ["inputs", "schedules", "configurations"],
     "for every corpus, order of directory listings and hashes, short reads, pairs sharing graphs and graphbanks",
     "The tests compare the modes on one small corpus and do not look at sharing or at which files are opened.",
     [L + "pgc/corpus.py", L + "gb/graphbank.py", L + "gb/graphstub.py"],
     [("loading modes", L + "pgc/corpus.py: PGCParser.parse, load_graphbanks, _get_graphs"), ("stubs and their clients", L + "gb/graphstub.py")],
     [("stub clients", "pairs waiting for a graph", L + "gb/graphstub.py")], ["corpus object", "log of opened files"])

prop("C06", "Graphs and graphbanks live exactly as long as they are in use",
     "Whenever the garbage collector runs - including in the middle of loading, editing or saving - no graph or graphbank that a held graph pair, corpus or graph refers to ever disappears, and the references between pairs, graphs and graphbanks stay intact. Graphs of a sparsely loaded graphbank that nothing refers to any more are released.",
     ["schedules", "histories"],
     "for every moment at which a collection can happen and every history of taking pairs, graphs and graphbanks out of corpora and dropping the rest",
     "A collection happens when the virtual machine decides; a test sees one schedule of it.",
     [L + "gb/graphbank.py", L + "gb/graphstub.py", L + "pgc/corpus.py", L + "pgc/graphpair.py"],
     [("weak table of graphs", L + "gb/graphbank.py: SparseGraphBank"), ("pairs hold banks and graphs", L + "pgc/graphpair.py: GraphPairBase")],
     [("graphs by id", "strong or weak table", L + "gb/graphbank.py")], ["graphs and banks reachable from what is held", "size of the graphbank"])

prop("C07", "Each graphbank file is listed once and every pair refers to the right one",
     "Whatever the order of tables and directory listings, and however a graphbank file was named (through symbolic links, different relative names, loaded twice into separate objects or missing on disk), a saved corpus lists every graphbank file that its pairs use exactly once and no other, with unique ids, and every pair refers to the entry of its own graphbanks. Corpora that refer to the same graphs through different names of the same file compare equal.",
     ["schedules", "inputs", "configurations"],
     "for every hash order, file layout with links and missing files, and way the pairs were put together",
     "Hash order is fixed in a test run; links and missing graphbanks are not covered.",
     [L + "pgc/corpus.py", L + "gb/graphbank.py"],
     [("equality of graphbanks by file", L + "gb/graphbank.py: __eq__"), ("collecting the graphbanks of the pairs", L + "pgc/corpus.py: _graphbanks, _gen_graphbanks"), ("unifying graphbanks", L + "pgc/corpus.py: purge")],
     [], ["graphbank entries and references in the saved file", "corpus comparison"])

prop("C08", "Moving and copying corpora keeps their graphbank references right",
     "Copying a corpus elsewhere gives a corpus that refers to the same graphbank files, with references relative to the place of the copy; changing directory prefixes rewrites exactly the matching references and changes nothing else. After corpus and graphbanks are moved together the corpus still loads, from every working directory, and with relaxed paths a graphbank next to the corpus is found when its recorded place is gone.",
     ["inputs", "configurations", "histories"],
     "for every layout, sequence of moves and copies, working directory, link and content",
     "The tests have one copy and one relocation of one corpus in one layout.",
     ["bin/pgc_cp.py", "bin/pgc_chdir.py", L + "pgc/corpus.py", L + "gb/graphbank.py"],
     [("relative paths on writing, resolving on reading", L + "pgc/corpus.py: _gen_graphbanks, handle_file_elem_end"), ("absolute real paths in memory", L + "gb/graphbank.py: _set_file_path")],
     [], ["saved files", "corpora loaded from the new place"])

prop("C09", "Editing histories: one-to-one alignment and list behaviour",
     "After any history of adding, replacing and removing alignments, each source node is aligned to at most one target node and conversely, with the label given last, and every way of asking (by pair, by source node, by target node, listing all or selected relations) gives the same answer. After any history of list operations on corpora - including slicing, inserting, repeating, concatenating, comparing, searching, copying, sorting and clearing - a corpus holds the pairs a plain list would, copies are independent of their originals, and operations that must be refused leave it unchanged.",
     ["histories"],
     "for every history of operations on pairs and corpora",
     "The tests call each operation once or twice in a fixed order.",
     [L + "pgc/graphpair.py", L + "pgc/corpus.py", L + "pair.py"],
     [("replacing earlier alignments", L + "pgc/graphpair.py: GraphMatching.add_align"), ("type checks and copies", L + "pgc/corpus.py: ParallelGraphCorpus")],
     [("alignment edges", "directed edges between (role, node) vertices", L + "pgc/graphpair.py")], ["alignments()", "corpus contents"])

prop("C10", "Splitting and joining lose nothing, and failures are seen",
     "The parts made from splitting a corpus hold, in the order of their names, exactly its pairs with their alignments, meta-data and relations and refer to the same graphbanks, a number of parts is never more than asked for, a size of parts is kept by all but the last, and joining them gives back the original sequence of pairs. When a part cannot be written or an input cannot be read, the tool says so, never having changed its inputs or left a partial part or result.",
     ["inputs", "fault_sequences", "crash_points"],
     "for every corpus, part size, order of directory listings, failing system call and crash",
     "The tests split and join a single corpus without failures.",
     ["bin/pgc_split.py", "bin/pgc_join.py", L + "pgc/corpus.py", L + "utils/opsys.py"],
     [("slices of corpora", "bin/pgc_split.py"), ("sorted expansion of patterns", L + "utils/opsys.py: multiglob")],
     [], ["part files", "joined output", "exit status"])

prop("C11", "Corpus archives are complete and self-contained",
     "An archive of corpora that was reported as made contains every corpus asked for and every graphbank these refer to, each once, the corpora unmodified and all graphbanks they list beside them, so that unpacking it anywhere and reading with relaxed paths gives corpora equal to the originals. Name clashes, missing corpora or graphbanks, unreadable input and failing writes are reported, the originals are never changed and temporary files do not accumulate.",
     ["inputs", "fault_sequences", "crash_points"],
     "for every set of corpora, layout, sharing of graphbanks, failing system call and crash",
     "The tests make one archive of one corpus and only look at its table of contents.",
     ["bin/pgc_zip.py", L + "pgc/corpus.py", L + "gb/graphbank.py"],
     [("relocating the graphbanks of the archived copy", "bin/pgc_zip.py")],
     [], ["members of the archive", "corpora unpacked elsewhere", "exit status"])

prop("C12", "Statistics equal an independent recount",
     "For every set of corpora the alignment statistics per file and overall, and the graphbank statistics, equal a recount from the files themselves, percentages and averages included, whatever the order in which files are listed or tables are hashed and whichever options are used. Neither repeating a computation nor a failing read changes or silently lowers the numbers, and relations that cannot be counted are not passed over.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "for every set of corpora, option combination, directory order, short read and failing system call",
     "The tests print tables for two fixed corpora and check hardly any number.",
     [L + "pgc/pgcstats.py", L + "gb/gbstats.py", L + "stats/table.py", "bin/pgc_stats.py", "bin/gb_stats.py"],
     [("counting and summarizing", L + "pgc/pgcstats.py, gb/gbstats.py, stats/table.py")],
     [], ["numbers in the tables printed"])

prop("C13", "Statistics tables read back as they were written",
     "A statistics table that was written reads back with the same columns, rows and overall numbers up to the printed precision, with totals of the rows as overall counts, however many digits its counts have, with long or spaced names and empty tables, and however the bytes arrive. A truncated table or failing read is reported and leaves the table read into as it was.",
     ["inputs", "crash_points", "fault_sequences"],
     "for every table, truncation point, failing read and short read",
     "The tests read back one table written without failures.",
     [L + "stats/table.py", L + "pgc/pgcstats.py"],
     [("fixed-format writer and reader", L + "stats/table.py: write, read")],
     [], ["table object after reading"])

prop("C14", "Segment statistics survive crashes and reruns",
     "When computing the statistics of corpus segments is killed or fails anywhere and is run again, the final tables equal those of an undisturbed run and a recount of the corpora, with no stale or truncated table included. A failure is reported, and the working directory of the caller is what it was.",
     ["crash_points", "fault_sequences", "histories"],
     "for every crash point, failing system call, earlier leftovers and number of reruns",
     "The tests run the computation once on intact data.",
     [L + "stats/corpus.py", L + "stats/table.py", L + "pgc/pgcstats.py"],
     [("subtables per segment, combined afterwards", L + "stats/corpus.py: corpus_seg_stats")],
     [], ["tables written", "working directory"])

prop("C15", "Parallel text documents survive saving, relocation and failures",
     "A parallel text document that was edited and saved reads back with the same file names, pseudo-roots, element settings and alignments, in both numbering schemes. A save or relocation that is interrupted or fails leaves the complete old or new document and says so; relocation replaces exactly the directories of the source and target files, keeping their names.",
     ["inputs", "histories", "crash_points", "fault_sequences"],
     "for every document, editing history, crash point and failing system call",
     "The tests save one document once without failures.",
     [L + "ptc/document.py", "bin/ptc_chdir.py", L + "utils/opsys.py"],
     [("write and replace", L + "ptc/document.py: write")],
     [], ["document read back", "bytes of the file"])

prop("C16", "Renumbering alignments keeps linking the same text elements",
     "Converting a parallel text document from counting elements to naming them, by method or by tool, keeps exactly the same pairs of text elements aligned, in order, and documents found next to a moved parallel text are used instead of missing ones when asked. A text file that cannot be read or an alignment that refers to nothing is reported and nothing is written; an interrupted conversion leaves each document complete in the old or new form.",
     ["inputs", "crash_points", "fault_sequences", "configurations"],
     "for every pair of texts, alignment, layout, crash point and failing system call",
     "The tests convert one document without failures.",
     [L + "ptc/document.py", "bin/ptc_n_to_id.py"],
     [("inject and extract alignments", L + "ptc/document.py: inject_alignments_n, extract_alignments_id"), ("search for moved files", L + "ptc/document.py: get_filename")],
     [], ["alignments resolved against the texts"])

prop("C17", "Corpora derived from parallel texts pair the right graphs",
     "A corpus made from a parallel text has one pair for each alignment of the chosen pair of elements, in document order, pairing the graphs whose ids the aligned elements carry, with the requested relations and references to the graphbanks by which the corpus can be loaded; only alignments whose elements are longer or more similar than asked are left out. When something cannot be read or written or an alignment cannot be resolved this is reported, no partial or damaged corpus is left, and one corpus does not overwrite another made by the same run.",
     ["inputs", "fault_sequences", "crash_points"],
     "for every parallel text, text pair, graphbank pair, option, crash point and failing system call",
     "The tests create one corpus from one text.",
     [L + "pgc/creation.py", "bin/pgc_from_ptc.py", L + "ptc/document.py"],
     [("creation", L + "pgc/creation.py: pgc_from_ptc")],
     [], ["corpus file", "warnings and exit status"])

prop("C18", "The shared cache is consistent under concurrent use",
     "Used by several threads at once, the cache behaves as if its operations happened one after another: a fetch returns the value inserted last or reports absence, the number of entries never exceeds the maximum, what is evicted first is the least recently used entry, and removed or cleared entries are gone. No operation blocks or loops for ever, and one that fails, because of its arguments or because memory has run out, leaves the cache usable and consistent.",
     ["schedules", "histories"],
     "for every interleaving of threads at every statement of the cache and every history of operations, sizes, expiry settings and failing allocations",
     "There are no tests of the cache; the schedule of threads cannot be chosen by one.",
     [L + "thirdparty/GenericCache/GenericCache.py", L + "thirdparty/GenericCache/LRUStock.py", L + "thirdparty/GenericCache/decorators.py"],
     [("one lock around every operation", L + "thirdparty/GenericCache/decorators.py: synchronized"), ("doubly linked list in order of use", L + "thirdparty/GenericCache/LRUStock.py")],
     [("entries and their order of use", "dict plus linked list, always the same keys", L + "thirdparty/GenericCache/")], ["results of operations", "keys and size"])

prop("C19", "Cached values expire on time, whatever the clock does",
     "An entry can be fetched up to its expiry time after its insertion or last overwriting and not later, fetching it does not prolong its life, and collecting removes exactly the expired entries. When the clock jumps, backwards or forwards, entries are judged by the clock as it is now and nothing is corrupted; a changed expiry or size applies at once to everything in the cache.",
     ["schedules", "histories", "fault_sequences"],
     "for every history of operations, passing of time and clock jumps",
     "There are no tests of the cache; real time cannot be made to jump.",
     [L + "thirdparty/GenericCache/GenericCache.py"],
     [("age check on access", L + "thirdparty/GenericCache/GenericCache.py: _has_expired, collect")],
     [("time of insertion", "kept per entry", L + "thirdparty/GenericCache/GenericCache.py: CacheNode")], ["results of operations under a simulated clock"])

prop("C20", "Generated cache values: computed when missing, failures not stored",
     "Fetching with a generator, or calling a cached function, returns the stored value when there is a live one and otherwise calls the generator exactly once with the given arguments and stores what it returns, empty and false values included; concurrent callers of the same missing key get one value that is generated once. When the generator fails, its error reaches the caller, nothing is stored, nobody stays locked out, and a later call succeeds; different arguments (as far as their representations differ) and different functions never share a value.",
     ["schedules", "histories", "fault_sequences"],
     "for every interleaving of threads, failing generators, expiry and eviction between calls",
     "There are no tests of the cache.",
     [L + "thirdparty/GenericCache/GenericCache.py", L + "thirdparty/GenericCache/decorators.py"],
     [("fetch with generator", L + "thirdparty/GenericCache/GenericCache.py: fetch_with_generator"), ("cached decorator", L + "thirdparty/GenericCache/decorators.py: cached")],
     [], ["values returned", "calls of the generator"])

prop("C21", "Creating directories and expanding patterns is deterministic and honest",
     "Creating a directory path succeeds exactly when the directory exists afterwards, also when another process creates or removes parts of it at the same time, and otherwise reports why not. Expanding file patterns gives exactly the matching files, in sorted order, whatever order the system lists them in.",
     ["schedules", "fault_sequences", "inputs"],
     "for every tree, pattern list, listing order, failing system call and interleaving with another process",
     "The order of listings and other processes cannot be controlled in a test.",
     [L + "utils/opsys.py"],
     [("makedirs tolerating existing directories", L + "utils/opsys.py: makedirs"), ("sorted glob", L + "utils/opsys.py: glob, multiglob")],
     [], ["directory tree", "list returned"])

prop("C22", "Command line tools fail loudly and read-only tools change nothing",
     "A tool that ends with success and silent error output has produced, on whatever system call failures, short reads, truncated or missing inputs and full outputs, exactly what an undisturbed run produces. Tools that only read and print never change any file, and a tool whose input is missing or cannot be read does not end with success.",
     ["fault_sequences", "crash_points", "inputs"],
     "for every tool, arguments, input, failing system call, missing or damaged file and full output",
     "The tests run the tools on intact input on a healthy system.",
     ["bin/pgc_stats.py", "bin/gb_stats.py", "bin/pgc_diff.py", "bin/pgc_extract_phrases.py", "bin/pgc_join.py", "bin/pgc_agreement.py", "bin/ptc_diff.py", "bin/ptc_eval.py", L + "utils/cli.py"],
     [("exceptions and exit status", "bin/")],
     [], ["exit status, error output, standard output, file system"])

prop("C23", "Evaluation and agreement numbers are exact",
     "For every pair or group of aligned corpora or parallel texts, recall, precision and F-score per file, per relation and over all files, macro and micro averages and the agreement between each two annotators equal an independent computation from the alignments, in whatever order files are listed and results are combined. Stored results read back with the same numbers, and an interrupted or failed storing leaves the complete old or new results.",
     ["inputs", "schedules", "crash_points", "fault_sequences"],
     "for every set of corpora, order of files, option, crash point and failing system call",
     "The tests check the numbers of one fixed pair of corpora.",
     [L + "pgc/evaluate.py", L + "pgc/agreement.py", "bin/pgc_agreement.py", L + "ptc/evaluate.py", "bin/ptc_eval.py"],
     [("counting common, true and predicted alignments", L + "pgc/evaluate.py: AlignEval"), ("cross evaluation of annotators", L + "pgc/agreement.py")],
     [], ["numbers computed and printed", "pickled results"])

prop("C24", "Comparing and extracting reports exactly what is there",
     "Comparing two annotations of the same graph pairs, or two alignments of the same texts, reports every difference exactly once, with both elements and both relations, and nothing that is not a difference (identical alignments, comments and relations only as asked for), the differences of each kind in the order of the source nodes. Extracting phrases prints one line per node alignment with the right phrases and relation, in the order of graph pairs. A report that could not be made completely is not passed off as complete, and comparing changes neither corpora nor files.",
     ["inputs", "fault_sequences"],
     "for every pair of annotations, selection of relations, option, failing system call, short read, damaged input and full output",
     "The tests run each tool once on one fixed pair of files and do not look at the report.",
     [L + "pgc/diff.py", L + "ptc/diff.py", "bin/pgc_diff.py", "bin/ptc_diff.py", "bin/pgc_extract_phrases.py"],
     [("comparing node alignments", L + "pgc/diff.py: pgc_diff, print_alignments"), ("comparing text alignments", L + "ptc/diff.py: print_diff"), ("one line per alignment", "bin/pgc_extract_phrases.py: extract_phrases")],
     [], ["standard output", "exit status, error output", "file system", "corpora in memory"])

prop("C25", "Processes that run at the same time see complete files only",
     "When several processes (tools, or programs that load, change and save) use the same corpora, documents and archives at the same time, every file that is saved appears to the others in one go: whoever reads it gets the version before or the version after it as a whole, never a mixture, a part or nothing. So each process does what it would do alone on one version of each file that was there while it ran, succeeds whenever it would have done so alone, and a file saved by several of them ends up as the complete work of one of them. Temporary files of one process are not taken for data or overwritten by another, and none stay behind unless a process crashes.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "for every interleaving of the system calls of the processes, crash and failing system call",
     "A test runs one process at a time, and cannot choose when another one takes over.",
     [L + "utils/opsys.py", L + "pgc/corpus.py", L + "ptc/document.py", "bin/pgc_zip.py", "bin/pgc_chdir.py", "bin/pgc_cp.py", "bin/pgc_split.py", "bin/ptc_chdir.py", "bin/ptc_n_to_id.py"],
     [("files replaced in one go", L + "utils/opsys.py: replacing"), ("reading each corpus once", "bin/pgc_zip.py: add_corpora")],
     [], ["contents of files at every system call", "exit status, standard output", "files left behind"])

prop("C26", "Graphs keep the order of their edges through any history",
     "Whatever sequence of adding, changing and removing nodes and edges, copying, loading, saving and crashing led to it, an ordered graph lists the successors, predecessors, and edges of a node in the order in which these edges were added, seen alike from both ends and with the data last given. Copies are independent of each other, a graph restored from disk is the one that was saved, and an edge that cannot be added is refused without a trace. Of a DAESO graph, the terminal yield of every node lists its terminals once, in that order, punctuation and empty nodes included or not as asked, and token strings are those of its tokens.",
     ["histories", "inputs", "crash_points"],
     "for every history of operations on several graphs, of every order of edges, with short reads while loading, crashes in between and any order of hashes",
     "The tests build two or three fixed graphs once and look at the edges.",
     [L + "graph/ograph.py", L + "graph/daesograph.py"],
     [("ordered adjacency", L + "graph/ograph.py: ODiGraph"), ("traversal", L + "graph/daesograph.py: terminal_yield")],
     [("graph", "ordered successors and predecessors of each node, sharing edge data", L + "graph/ograph.py")], ["public queries of the graphs after every operation"])

NA = "a pure function of its arguments: no schedule, clock, I/O, fault or second party for a simulator to decide"
prop("N01", "String similarity measures satisfy their definitions",
     "Every string distance or similarity is the one its definition gives: edit distances are minimal, alignments optimal, n-gram and subsequence overlaps exact.",
     ["inputs"], "for all strings and weights", "Unbounded inputs.",
     [L + "string/levenshtein.py", L + "string/needleman_wunsch.py", L + "string/smith_waterman.py", L + "string/ngram.py"],
     [("dynamic programming", L + "string/")], na=NA)
prop("N02", "Minimum cost assignment is optimal",
     "The assignment computed for a cost matrix has minimal total cost and uses each row and column at most once.",
     ["inputs"], "for all cost matrices", "Unbounded inputs.",
     [L + "thirdparty/munkres.py"], [("Hungarian algorithm", L + "thirdparty/munkres.py")], na=NA)
prop("N04", "Automatic text alignment keeps the order of sentences",
     "Automatic alignment of two texts never crosses alignments unless asked and aligns only elements above the similarity threshold.",
     ["inputs"], "for all text pairs", "Unbounded inputs.",
     [L + "ptc/textalign.py"], [("filters", L + "ptc/textalign.py")],
     na="the module cannot be imported in this tree (it needs a package that is not there), and apart from that it is a pure function of its arguments")
prop("N05", "Driving interactive programs never loses output",
     "Output of a spawned interactive program is delivered once and in order, and timeouts are honoured.",
     ["schedules"], "for all schedules of the child program", "The schedule of a child cannot be chosen.",
     [L + "thirdparty/pexpect.py"], [("select loop", L + "thirdparty/pexpect.py")],
     na="the module cannot be imported on the only interpreter available here (Jython has no pty, termios or fork), so no execution of it can be simulated")
prop("N06", "Small containers: pairs, counters and ordered tables",
     "Pairs, counters and ordered dictionaries compare, iterate and update as documented.",
     ["inputs"], "for all contents", "Unbounded inputs.",
     [L + "pair.py", L + "thirdparty/counter.py", L + "thirdparty/odict.py"], [("classes", L + "pair.py")], na=NA)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"],
                 "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": list(p["observe"]), "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w}
                              for n, m, w in p["state"]]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] in catalog.CHECKS:
            c = catalog.CHECKS[p["id"]]
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py check " + p["id"],
                "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                "technique": "deterministic simulation with fault injection: "
                + c.get("technique", "seeded search over inputs and faults"),
                "level": "exploration",
                "level_note": c.get("note", "Seeded sampling of executions of "
                "the real code in a simulated operating system; trusts the "
                "simulator, the reference model in sim/ and the Jython "
                "interpreter. A clean batch is evidence, not proof.")})
        else:
            na.append({"property": p["id"], "reason":
                       "not built yet: its check is still to be written"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 run.py setup",
                   "checks": checks, "not_applicable": na,
                   "notes": "See DESIGN.md. No hooks in /repo: every source "
                   "of nondeterminism is replaced before the code under test "
                   "is imported."}, f, indent=1)
        f.write("\n")


main()
