#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


X, S, T, U = "src/core/index/", "src/core/search/", "src/core/store/", "src/core/util/"

p("C01", "A completed commit survives any crash, and a crash never shows half a commit",
  "Once IndexWriter commit() or close() (or a committing IndexReader flush/close) has returned, then after the process or machine stops at any later moment - any file not yet synced being lost, cut short or left with stale content - opening the directory succeeds and shows the documents of that commit or of a later commit that was already under way. "
  "What is opened after a crash is always exactly the content of one commit that was attempted, never a mixture of two. After such a crash a writer can be opened on the directory (the abandoned lock aside) and continue.",
  "crash_points histories configurations",
  "every prefix of the storage operations of every history of writer and reader-side commits, times every fate of the data not yet synced, for compound and plain segments",
  "Tests crash at a handful of places with a directory that forgets unsynced files at the end; they do not enumerate the storage operations inside a commit nor tie the recovered documents to a set of admissible commits.",
  f"{X}IndexWriter.cpp {X}SegmentInfos.cpp {X}IndexFileDeleter.cpp {X}DirectoryReader.cpp {T}FSDirectory.cpp {T}SimpleFSDirectory.cpp {T}ChecksumIndexOutput.cpp {U}FileUtils.cpp",
  [("two-phase commit: sync every referenced file, then segments_N with its checksum last", X + "IndexWriter.cpp startCommit/finishCommit, " + X + "SegmentInfos.cpp prepareCommit/finishCommit"),
   ("recovery: newest generation from the listing and segments.gen, falling back", X + "SegmentInfos.cpp FindSegmentsFile::doRun"),
   ("old files deleted only after the new commit is complete", X + "IndexFileDeleter.cpp checkpoint"),
   ("sync reaches the operating system", T + "FSDirectory.cpp sync, " + U + "FileUtils.cpp")],
  [("durable commit", "newest commit all of whose files are synced and whose segments_N is complete", "Directory contents")],
  ["Directory create/sync/delete calls", "IndexReader::open after the crash"])

p("C02", "An open reader shows one fixed point in time",
  "Everything an open IndexReader answers - documents, counts, terms, postings, stored fields, vectors, norms - stays what it was when the reader was opened, cloned or reopened (changed only by deletions and norms set through that reader itself), whatever other writers and readers then do to the index: adding, deleting, merging, committing, optimizing, deleting old commits. "
  "This holds until the reader is closed, including for readers sharing segments with newer or older readers that are closed first.",
  "histories configurations",
  "every interleaving of operations of any number of readers (opened, reopened, cloned, near-real-time) with any history of writer operations",
  "Tests compare one or two readers with a few later changes; sharing between reopened and cloned readers and file deletion give a history space they sample at a few points.",
  f"{X}DirectoryReader.cpp {X}SegmentReader.cpp {X}IndexReader.cpp {X}IndexFileDeleter.cpp {X}ReadOnlyDirectoryReader.cpp {X}IndexWriter.cpp",
  [("copy-on-write deletions and norms between clones", X + "SegmentReader.cpp cloneSegment/reopenSegment/doDelete/setNorm"),
   ("core readers and norms reference counted", X + "SegmentReader.cpp CoreReaders/Norm incRef/decRef"),
   ("files of open readers kept readable", X + "IndexFileDeleter.cpp and write-once files")])

p("C03", "A writer's operations take effect exactly in the order they were made",
  "The committed index contains exactly the documents that result from applying the add, update, delete-by-term, delete-by-query, delete-all and add-indexes calls one after the other in call order, in insertion order, each with the content it was given. "
  "When the writer flushes (any buffer limit for documents, memory or deletions), merges, or is reopened makes no difference, and a document rejected with an error is entirely absent while its neighbours are unaffected.",
  "histories configurations",
  "every sequence of writer operations, under every flush threshold, merge factor and compound-file setting",
  "Tests try fixed sequences with the default or one small buffer; the interplay of buffered deletions, flush points and merges is a product space they do not enumerate.",
  f"{X}IndexWriter.cpp {X}DocumentsWriter.cpp {X}BufferedDeletes.cpp {X}DocumentsWriterThreadState.cpp {X}SegmentMerger.cpp {X}DocFieldProcessorPerThread.cpp",
  [("deletion bounded by the document id at which it was buffered", X + "DocumentsWriter.cpp addDeleteTerm/applyDeletes, " + X + "BufferedDeletes.cpp"),
   ("deletions remapped when documents move", X + "BufferedDeletes.cpp remap, MergeDocIDRemapper"),
   ("aborted document marked deleted", X + "DocumentsWriter.cpp updateDocument error path")])

p("C04", "Commits, prepared commits and rollbacks are all-or-nothing",
  "Changes become visible to newly opened readers only through commit(), close() or completion of prepareCommit(), all of them together, with the user data given; after prepareCommit() they are still invisible and can be completed or rolled back. "
  "rollback() (or closing an index session by failing) leaves the index exactly as the last completed commit, discarding every change of the session including merges, optimize, deleteAll and addIndexes, and addIndexes either adds every source document or none.",
  "histories fault_sequences",
  "every history of operations and commit/prepareCommit/rollback/close calls, including on an index with earlier commits",
  "Tests check a few rollback points; all orders of prepare, further changes, commit and rollback are not covered.",
  f"{X}IndexWriter.cpp {X}SegmentInfos.cpp {X}IndexFileDeleter.cpp",
  [("pending commit kept apart from the live segment infos", X + "IndexWriter.cpp prepareCommit/startCommit/finishCommit"),
   ("rollback restores the infos saved at the last commit", X + "IndexWriter.cpp rollbackInternal, rollbackTransaction"),
   ("checkpoint only commits when asked", X + "IndexWriter.cpp checkpoint, " + X + "IndexFileDeleter.cpp")])

p("C05", "At most one holder may change an index at a time",
  "While an IndexWriter is open, or an IndexReader has uncommitted deletions or norms, any attempt by another writer or reader to start changing the same index fails with a lock error and leaves the index untouched; once the holder closes, commits its reader changes or rolls back, the next attempt succeeds. "
  "A reader that is not the latest commit refuses to make changes and must be reopened first.",
  "histories configurations schedules",
  "every interleaving of openings, changes and closings by any number of writers and readers, with every lock factory that is meant to exclude",
  "Tests try one pair of contenders; release on each of the many failure and close paths is not enumerated.",
  f"{X}IndexWriter.cpp {X}DirectoryReader.cpp {T}Lock.cpp {T}SingleInstanceLockFactory.cpp {T}SimpleFSLockFactory.cpp {T}NativeFSLockFactory.cpp",
  [("write lock obtained in the constructor, released on close/rollback/failure", X + "IndexWriter.cpp init/closeInternal/rollbackInternal"),
   ("reader acquires the lock at its first change and checks it is current", X + "DirectoryReader.cpp acquireWriteLock/doCommit")])

p("C06", "Index files are removed exactly when nothing needs them",
  "No file that belongs to a commit kept by the deletion policy, to the writer's uncommitted state or to an unfinished merge is ever deleted. "
  "Once the writer is closed or rolled back, the directory holds no index file other than those of the retained commits and the generation pointer, and leftovers of crashes or failed operations are removed when a writer is opened.",
  "histories crash_points fault_sequences",
  "every history of flushes, merges, commits, rollbacks, failures and reopenings, compound or not, shared document stores or not",
  "Tests look for unreferenced files at the end of a few scenarios; reference counting errors depend on particular sequences.",
  f"{X}IndexFileDeleter.cpp {X}SegmentInfo.cpp {X}SegmentInfos.cpp {X}IndexWriter.cpp {X}IndexFileNameFilter.cpp",
  [("reference count per file across commits, checkpoints and new files", X + "IndexFileDeleter.cpp incRef/decRef/checkpoint/deleteCommits"),
   ("unreferenced files found by listing at open and after failures", X + "IndexFileDeleter.cpp constructor/refresh"),
   ("failed deletions retried", X + "IndexFileDeleter.cpp deletePendingFiles")])

p("C07", "Deletion policies decide which commits survive, and every survivor can be opened",
  "The commits listed for an index are exactly those the IndexDeletionPolicy has not deleted, in commit order, each with its own user data and content; any of them can be opened by a reader, and a writer can be opened on an old one to continue from it without disturbing the others. "
  "The policy is told of the existing commits when a writer opens and after each commit, oldest first, and a snapshot held by SnapshotDeletionPolicy keeps its commit intact until released.",
  "histories configurations",
  "every history of commits, openings on any listed commit, and decisions of any policy",
  "Tests use four fixed policies and linear histories.",
  f"{X}IndexFileDeleter.cpp {X}DirectoryReader.cpp {X}IndexWriter.cpp {X}SnapshotDeletionPolicy.cpp {X}KeepOnlyLastCommitDeletionPolicy.cpp {X}IndexCommit.cpp",
  [("onInit/onCommit calls and CommitPoint::deleteCommit", X + "IndexFileDeleter.cpp"),
   ("opening on a commit", X + "IndexWriter.cpp init, " + X + "DirectoryReader.cpp open"),
   ("snapshot wrapper refuses deletion", X + "SnapshotDeletionPolicy.cpp")])

p("C08", "Near-real-time readers show exactly the writer's current state",
  "IndexWriter::getReader, and reopen of a reader obtained from it, return a reader showing every change made through the writer before the call, committed or not, and none made after; nothing becomes visible to ordinarily opened readers by that. "
  "isCurrent of such a reader is true exactly while the writer has made no further change, and merged segments carry over deletions that were made while the merge ran.",
  "histories configurations schedules",
  "every history mixing getReader, reopen, clone and close with adds, deletes, merges, commits and rollback",
  "Tests use fixed scenarios; the reader pool's cached deletions and merges form a larger history space.",
  f"{X}IndexWriter.cpp {X}DirectoryReader.cpp {X}SegmentReader.cpp",
  [("reader pool shares live segment readers", X + "IndexWriter.cpp ReaderPool"),
   ("flush and clone of segment infos under the writer lock", X + "IndexWriter.cpp getReader, " + X + "DirectoryReader.cpp ConstructDirectoryReader(writer)"),
   ("deletions carried to the merged segment", X + "IndexWriter.cpp commitMergedDeletes")])

p("C09", "Changes made through readers, reopen and clone behave like a versioned index",
  "Deletions, undeleteAll and norms set through an IndexReader are visible to it at once, to others only after it commits, and are discarded or kept entirely; reopen returns the same reader when nothing changed and otherwise one equal to a freshly opened one, clone an independent equal one, and only one of the clones may go on to change the index. "
  "Versions increase with every commit, isCurrent is true exactly when no later commit exists, and a reader can be used until its last reference is closed and not afterwards.",
  "histories",
  "every history of openings, reopenings, clones, deletions, norm changes, commits and closings of several readers",
  "IndexReaderReopen and Clone tests follow fixed scripts (one is even excluded as unreliable).",
  f"{X}IndexReader.cpp {X}DirectoryReader.cpp {X}SegmentReader.cpp {X}ReadOnlyDirectoryReader.cpp {X}ReadOnlySegmentReader.cpp",
  [("reopen reuses unchanged segment readers", X + "DirectoryReader.cpp doReopen, " + X + "SegmentReader.cpp reopenSegment"),
   ("hand-over of pending changes and lock on clone", X + "DirectoryReader.cpp doReopen(clone)"),
   ("reference counts", X + "IndexReader.cpp incRef/decRef/ensureOpen")])

p("C10", "Merging changes the segments, never the documents",
  "optimize, expungeDeletes, automatic and background merges and addIndexes leave the sequence of live documents, with all stored fields, postings, positions, payloads, vectors, norms and field options, exactly as they were; only deleted documents disappear. "
  "After optimize(n) there are at most n segments (one without deletions for n=1), after expungeDeletes with a limit of zero no deletions remain, every segment is claimed by at most one running merge, and merge policies only propose adjacent, in-bounds merges respecting mergeFactor and the maximum segment size.",
  "histories configurations inputs",
  "every segment layout with any pattern of deletions, every merge factor, size limit and compound setting",
  "Tests check document counts after merges of a few layouts and rarely look at contents.",
  f"{X}SegmentMerger.cpp {X}LogMergePolicy.cpp {X}LogDocMergePolicy.cpp {X}LogByteSizeMergePolicy.cpp {X}IndexWriter.cpp {X}ConcurrentMergeScheduler.cpp {X}SerialMergeScheduler.cpp {X}FieldInfos.cpp",
  [("merging of stored fields, vectors, norms, terms", X + "SegmentMerger.cpp"),
   ("choice of merges", X + "LogMergePolicy.cpp findMerges/findMergesForOptimize/findMergesToExpungeDeletes"),
   ("registration of merging segments", X + "IndexWriter.cpp registerMerge/mergeFinish")])

p("C11", "A failing storage operation loses nothing that was committed",
  "When any read, write, sync, create or delete of a file fails at any moment, the operation in progress reports an exception, the index remains openable with the content of the last successful commit, and rollback and reopening of the writer still work; a call that returns normally has had its full effect. "
  "If the writer itself is still usable after the exception, a later successful commit contains exactly the operations that succeeded (or a document-level prefix of the failed one), and a failing disk write is never mistaken for success.",
  "fault_sequences histories",
  "every storage operation of every history failing, once or from then on",
  "Disk-full tests step through one or two operations; failures of each step under each state are not enumerated, and real files never fail in tests.",
  f"{X}IndexWriter.cpp {X}DocumentsWriter.cpp {X}IndexFileDeleter.cpp {X}SegmentInfos.cpp {T}SimpleFSDirectory.cpp {T}BufferedIndexOutput.cpp {X}CompoundFileWriter.cpp {X}DirectoryReader.cpp",
  [("undo on exception in flush, merge, commit, addIndexes", X + "IndexWriter.cpp"),
   ("abort of buffered documents", X + "DocumentsWriter.cpp abort/setAborting"),
   ("reader-side commit rollback", X + "DirectoryReader.cpp doCommit, " + X + "SegmentReader.cpp rollbackCommit")])

p("C12", "Writers and readers used by many threads act as if in some serial order",
  "For calls made concurrently on one IndexWriter and its readers - add, update, delete, commit, getReader, reopen, optimize, close, with merges in background threads - every result is explained by some serial order of the calls consistent with their real-time order: no document is lost or duplicated, an update is never seen half done, and a commit includes every call that finished before it. "
  "No schedule deadlocks, hangs or crashes; close waits for or stops running merges.",
  "schedules histories",
  "every schedule of every set of concurrent calls",
  "Stress tests run a few random schedules of the operating system and check totals; most interleavings are never taken and the reopen stress test is excluded as unreliable.",
  f"{X}IndexWriter.cpp {X}DocumentsWriter.cpp {X}ConcurrentMergeScheduler.cpp {X}DocumentsWriterThreadState.cpp {X}DirectoryReader.cpp {X}SegmentReader.cpp {U}Synchronize.cpp {U}LuceneSignal.cpp {U}LuceneThread.cpp include/lucene++/CloseableThreadLocal.h",
  [("monitor locking and wait/notify", U + "Synchronize.cpp, " + U + "LuceneSignal.cpp"),
   ("thread states and flush pausing", X + "DocumentsWriter.cpp getThreadState/pauseAllThreads"),
   ("merge scheduling and completion", X + "ConcurrentMergeScheduler.cpp, " + X + "IndexWriter.cpp waitForMerges/finishMerges"),
   ("commit serialization", X + "IndexWriter.cpp startCommit/waitForAllSynced/registerPendingMerge")])

p("C13", "The inverted index says exactly what was indexed",
  "For every indexed field, enumerating terms yields exactly the distinct terms of the documents in order with correct document frequencies, and term documents, positions and payloads are exactly those produced by analysis, in increasing order, for any number of documents and occurrences. "
  "Seeking to a term, skipping to any target (forward, repeatedly, mixed with next) and reading in bulk land exactly where plain iteration would, for every term index interval and skip interval, and deleted documents never appear.",
  "inputs configurations histories",
  "every collection of documents and every sequence of seek, next, skipTo and read calls",
  "Tests use small or uniform collections; skip data, delta coding and block boundaries depend on the distribution of frequencies and gaps.",
  f"{X}FreqProxTermsWriter.cpp {X}TermsHashPerField.cpp {X}TermInfosReader.cpp {X}SegmentTermDocs.cpp {X}SegmentTermPositions.cpp {X}SegmentTermEnum.cpp {X}MultiLevelSkipListReader.cpp {X}MultiLevelSkipListWriter.cpp {X}DefaultSkipListReader.cpp {X}FormatPostingsDocsWriter.cpp {X}TermInfosWriter.cpp {X}ByteSliceReader.cpp {X}ByteSliceWriter.cpp",
  [("postings accumulated in byte slices and written with skip lists", X + "FreqProxTermsWriterPerField.cpp, " + X + "FormatPostings*.cpp"),
   ("term dictionary with sparse in-memory index", X + "TermInfosReader.cpp, " + X + "TermInfosWriter.cpp"),
   ("multi-level skipping", X + "MultiLevelSkipListReader.cpp")])

p("C14", "Boolean queries match and score by their definition, however they are evaluated",
  "A boolean combination of queries matches exactly the live documents satisfying all required clauses, no prohibited one and at least the given minimum of optional ones, with the score its similarity defines (sum of matching clauses times coordination; maximum plus tie-breaker for disjunction-max). "
  "The same documents and scores result whether hits are collected in or out of order, iterated with nextDoc or advance in any mixture, explained, filtered, or after rewriting, and explain agrees with the score.",
  "inputs programs configurations",
  "every index, every nested query over it and every way of driving its scorer",
  "Tests compare evaluation modes on a few hand-written queries over one small index.",
  f"{S}BooleanQuery.cpp {S}BooleanScorer.cpp {S}BooleanScorer2.cpp {S}ConjunctionScorer.cpp {S}DisjunctionSumScorer.cpp {S}ReqExclScorer.cpp {S}ReqOptSumScorer.cpp {S}DisjunctionMaxQuery.cpp {S}DisjunctionMaxScorer.cpp {S}TermScorer.cpp {S}ConstantScoreQuery.cpp {S}FilteredQuery.cpp {S}MatchAllDocsQuery.cpp {S}IndexSearcher.cpp",
  [("bucket-based out-of-order scorer", S + "BooleanScorer.cpp"), ("scorer tree", S + "BooleanScorer2.cpp and scorers"), ("weights and explanations", S + "BooleanQuery.cpp BooleanWeight")])

p("C15", "Phrase and span queries match exactly the position patterns they define",
  "A phrase matches a document exactly when its terms occur at positions within the given slop of the query's relative positions (exactly in order for slop zero, any position alternatives for multi-phrase), with the number of exact matches as its frequency; span queries enumerate exactly the spans that first, or, not and ordered/unordered near define, in order of document and position. "
  "Skipping spans or scorers to a document gives the same as stepping, and deleted documents never match.",
  "inputs programs",
  "every document collection and every phrase or nested span query, including repeated terms, overlapping positions and gaps",
  "Tests list expected hits for hand-made phrases; repeated terms, stacked positions and nesting are sampled only.",
  f"{S}PhraseQuery.cpp {S}MultiPhraseQuery.cpp {S}ExactPhraseScorer.cpp {S}SloppyPhraseScorer.cpp {S}PhraseScorer.cpp {S}spans/NearSpansOrdered.cpp {S}spans/NearSpansUnordered.cpp {S}spans/SpanNotQuery.cpp {S}spans/SpanOrQuery.cpp {S}spans/SpanFirstQuery.cpp {X}MultipleTermPositions.cpp",
  [("merging of position lists", S + "ExactPhraseScorer.cpp, " + S + "SloppyPhraseScorer.cpp"), ("span enumeration", S + "spans/*.cpp")])

p("C16", "Multi-term queries select exactly the terms their definition covers",
  "Prefix, wildcard, term-range, fuzzy and numeric-range queries and filters match exactly the documents containing a term (or numeric value) within the definition - open or closed bounds, any precision step, similarity above the threshold - whichever rewrite method is used and whether run as query or filter. "
  "Rewriting to a boolean fails with the too-many-clauses error exactly when there are more terms than allowed.",
  "inputs configurations",
  "every term set, bound, pattern, precision step and rewrite method",
  "Numeric tests use random ranges for a few precision steps; others use a dozen terms and fixed patterns.",
  f"{S}MultiTermQuery.cpp {S}PrefixTermEnum.cpp {S}WildcardTermEnum.cpp {S}TermRangeTermEnum.cpp {S}FuzzyTermEnum.cpp {S}NumericRangeQuery.cpp {U}NumericUtils.cpp {S}FilteredTermEnum.cpp {S}MultiTermQueryWrapperFilter.cpp {S}FuzzyQuery.cpp src/core/analysis/NumericTokenStream.cpp",
  [("filtered term enumerations", S + "*TermEnum.cpp"), ("trie splitting of ranges", U + "NumericUtils.cpp splitRange"), ("rewrite strategies", S + "MultiTermQuery.cpp")])

p("C17", "Top-N searching returns exactly the N best hits in order",
  "search with a limit n returns the n best matching documents of the full ranking by score, or by the given sort fields and directions with ties broken by document order, together with the exact total number of hits, for every n, filter and sort type. "
  "Results do not depend on how the index is divided into segments, on the collector variant chosen, on track-scores options, nor on other searches run before.",
  "inputs configurations",
  "every index, query result, sort specification and n",
  "Sort tests list expected orders for one small index; the specialised collectors and comparators meet few value patterns.",
  f"{S}TopFieldCollector.cpp {S}TopScoreDocCollector.cpp {S}FieldComparator.cpp {S}FieldValueHitQueue.cpp {S}HitQueue.cpp {S}IndexSearcher.cpp {S}TopDocsCollector.cpp {S}Sort.cpp {S}SortField.cpp {S}FieldDocSortedHitQueue.cpp include/lucene++/PriorityQueue.h",
  [("collectors with early rejection against the queue's weakest entry", S + "TopFieldCollector.cpp, " + S + "TopScoreDocCollector.cpp"), ("comparators converting ordinals between segments", S + "FieldComparator.cpp")])

p("C18", "Dividing an index into parts does not change its answers",
  "The same documents give the same enumerations and search results whether they lie in one segment, many segments, several indexes under a MultiReader or MultiSearcher (sequential or parallel), in parallel indexes joined field by field, behind a filtering reader, or - for a single document - in a MemoryIndex. "
  "Document numbers map to the parts and back consistently.",
  "configurations inputs",
  "every division of every collection, with deletions, and every query or enumeration over it",
  "Tests compare two fixed divisions of tiny collections.",
  f"{X}MultiReader.cpp {X}ParallelReader.cpp {X}DirectoryReader.cpp {X}FilterIndexReader.cpp {X}MultipleTermPositions.cpp {S}MultiSearcher.cpp {S}ParallelMultiSearcher.cpp src/contrib/memory/MemoryIndex.cpp {U}ReaderUtil.cpp {X}DirectoryReader.cpp {X}SegmentMergeQueue.cpp",
  [("merging enumerations by term and document base", X + "DirectoryReader.cpp MultiTermEnum/MultiTermDocs"), ("per-searcher results merged", S + "MultiSearcher.cpp"), ("field-wise delegation", X + "ParallelReader.cpp")])

p("C19", "Filters and caches never change a result",
  "A filtered search returns exactly the hits of the query that the filter accepts, whichever filter implementation or wrapper (cached, query-based, range, terms, span) expresses it. "
  "A cached filter, cached field values or cached token stream gives the same answer as a fresh one for every reader it is used with - including after deletions, reopening and closing of readers - honouring the chosen deletion mode, and never answers from another reader's entry.",
  "histories inputs configurations",
  "every sequence of searches and field-cache look-ups over readers that are opened, changed, reopened and closed",
  "Tests use one reader and count calls.",
  f"{S}CachingWrapperFilter.cpp {S}CachingSpanFilter.cpp {S}FieldCacheImpl.cpp {S}FieldCacheRangeFilter.cpp {S}FieldCacheTermsFilter.cpp {S}FilterManager.cpp {S}QueryWrapperFilter.cpp {S}FilteredDocIdSet.cpp {S}IndexSearcher.cpp {S}FilteredQuery.cpp",
  [("cache keyed by reader identity", S + "FieldCacheImpl.cpp Cache::get, " + S + "CachingWrapperFilter.cpp FilterCache"), ("leap-frogging filter and scorer", S + "IndexSearcher.cpp searchWithFilter")])

p("C20", "The query parser builds exactly the query the syntax denotes",
  "For every query string made from terms, phrases, fields, groups, boosts, slop, fuzzy, prefix, wildcard and range forms joined by AND, OR, NOT, + and - (either default operator), the parsed query has exactly the clause structure, occurrence flags, boosts and term texts the grammar and the precedence rules define, and its string form parses back to an equal query. "
  "Malformed strings are rejected with a parse error rather than misread, and escaped special characters stand for themselves.",
  "inputs configurations",
  "every string of the query language",
  "Tests list about a hundred strings; combinations of operators, modifiers and nesting are unbounded.",
  "src/core/queryparser/QueryParser.cpp src/core/queryparser/QueryParserTokenManager.cpp src/core/queryparser/MultiFieldQueryParser.cpp src/core/queryparser/FastCharStream.cpp",
  [("addClause precedence rules", "src/core/queryparser/QueryParser.cpp addClause"), ("recursive descent", "src/core/queryparser/QueryParser.cpp ParseQuery/ParseClause/ParseTerm"), ("token automaton", "src/core/queryparser/QueryParserTokenManager.cpp")])

p("C21", "Token streams keep their contract through every filter and wrapper",
  "Tokens are delivered in text order with offsets that delimit the token's source text within the input and with positions advanced by the increments, where removed tokens add to the increment of the next when the filter promises it. "
  "Filtering, caching, replaying, teeing into sinks, limiting and reusing a stream for a second text deliver exactly the tokens the definition of the filter gives from the source, every time.",
  "inputs programs histories",
  "every text and every composition of tokenizers, filters and wrappers, and every sequence of reuse",
  "Tests check chosen sentences per analyzer.",
  "src/core/analysis/StopFilter.cpp src/core/analysis/CachingTokenFilter.cpp src/core/analysis/TeeSinkTokenFilter.cpp src/core/analysis/CharTokenizer.cpp src/core/analysis/LengthFilter.cpp src/core/analysis/KeywordTokenizer.cpp src/core/analysis/MappingCharFilter.cpp src/core/analysis/Token.cpp src/core/analysis/PerFieldAnalyzerWrapper.cpp src/core/util/AttributeSource.cpp src/core/analysis/PorterStemFilter.cpp src/core/index/DocInverterPerField.cpp",
  [("attribute sharing and state capture", "src/core/util/AttributeSource.cpp"), ("buffered character tokenization", "src/core/analysis/CharTokenizer.cpp"), ("position increment bookkeeping", "src/core/analysis/StopFilter.cpp")])

p("C22", "Directories and streams behave like plain byte files",
  "What is written to an index output through any sequence of writes and seeks is exactly what any input on that file reads back, from any position, through any buffer size, through any number of independent clones, in memory, on disk, memory-mapped, switched between directories, or packed into a compound file; reading past the end fails. "
  "Listing, existence, length, rename-free replacement, copying and deletion of files agree with the operations performed, and numbers and strings decode to what was encoded.",
  "histories inputs configurations",
  "every sequence of create, write, seek, flush, read, clone, delete and list operations with any sizes",
  "Tests read back a few lengths around the buffer size.",
  f"{T}BufferedIndexInput.cpp {T}BufferedIndexOutput.cpp {T}RAMOutputStream.cpp {T}RAMInputStream.cpp {T}RAMFile.cpp {T}RAMDirectory.cpp {T}SimpleFSDirectory.cpp {T}MMapDirectory.cpp {T}FSDirectory.cpp {T}FileSwitchDirectory.cpp {X}CompoundFileReader.cpp {X}CompoundFileWriter.cpp {T}IndexInput.cpp {T}IndexOutput.cpp {T}ChecksumIndexInput.cpp",
  [("buffer position arithmetic", T + "BufferedIndexInput.cpp, " + T + "BufferedIndexOutput.cpp"), ("page-wise RAM files", T + "RAMFile.cpp"), ("sub-file windows", X + "CompoundFileReader.cpp")])

p("C23", "Stored fields, vectors, norms and options come back exactly as given",
  "For every document, stored field values (text, binary, numeric, compressed), in order, term vectors with their frequencies, positions and offsets, and norms are exactly what the document's fields specified, for any mix of documents and field options, before and after flushing, merging and reopening. "
  "Field selectors return exactly the fields they accept, lazily or not, and documents lacking a field show none.",
  "inputs histories configurations",
  "every sequence of documents with arbitrary fields and options",
  "Tests use one schema per file; the interaction of differing schemas between documents and segments (fields changing options, empty documents, large values) is sampled only.",
  f"{X}FieldsReader.cpp {X}FieldsWriter.cpp {X}StoredFieldsWriter.cpp {X}TermVectorsReader.cpp {X}TermVectorsWriter.cpp {X}TermVectorsTermsWriter.cpp {X}NormsWriter.cpp {X}NormsWriterPerField.cpp {X}FieldInfos.cpp {X}SegmentMerger.cpp {X}DocFieldProcessorPerThread.cpp src/core/document/Document.cpp src/core/document/CompressionTools.cpp",
  [("stored fields files", X + "FieldsWriter.cpp, " + X + "FieldsReader.cpp"), ("vectors", X + "TermVectors*.cpp"), ("norms filled for gaps", X + "NormsWriter.cpp")])

p("C24", "Bit sets, document-id sets and priority queues behave like their ideals",
  "Open, fixed, sorted-VInt and reader-deletion bit sets answer every query (get, next set bit, cardinality, boolean operations, iteration, advance) as the set of integers they represent, through any sequence of operations and growth, and survive being written and read back. "
  "Priority queues always pop their least element, keep the n largest when bounded, and combined filters compute the set operation they name.",
  "histories inputs",
  "every sequence of operations, including across word boundaries and growth",
  "Random tests compare against one other container for a fixed set of operations and seeds.",
  f"{U}OpenBitSet.cpp {U}OpenBitSetDISI.cpp {U}OpenBitSetIterator.cpp {U}SortedVIntList.cpp {U}BitVector.cpp {U}BitSet.cpp {U}DocIdBitSet.cpp include/lucene++/PriorityQueue.h {U}BitUtil.cpp {U}ScorerDocQueue.cpp {S}FilteredDocIdSetIterator.cpp {S}DocIdSet.cpp",
  [("word-wise operations with tail handling", U + "OpenBitSet.cpp, " + U + "BitUtil.cpp"), ("heap order", "include/lucene++/PriorityQueue.h"), ("delta-coded list", U + "SortedVIntList.cpp")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    miss = []
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        seen = []
        for f in r["anchors"]["files"]:
            if f not in seen:
                seen.append(f)
        r["anchors"]["files"] = seen
        for f in seen:
            if not os.path.exists("/repo/" + f):
                miss.append((r["id"], f))
    print("missing anchors:", miss)
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for r in P:
            f.write(json.dumps(r) + "\n")
    print(len(P), "properties")
