import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
IX="hyperreal/index.py"; CO="hyperreal/corpus.py"; SC="hyperreal/_index_schema.py"; UT="hyperreal/utilities.py"; SV="hyperreal/server.py"; CL="hyperreal/cli.py"; DB="hyperreal/db_utilities.py"

p("C01","Indexing yields the exact inversion of the corpus",
"After indexing, every document of the corpus has exactly one document id, and the feature for (field, value) exists and retrieves exactly the documents whose indexed fields contain that value (missing values excluded), whatever the batch size, number of workers, order in which batches complete, and whether positions are recorded. Looking features up by id or by key, iterating a field in value order (with a minimum document count), the reported document counts and the per-field summary (distinct values, smallest and largest value) all agree with that inversion.",
["inputs","configurations","schedules"],"every corpus (any fields, sequence or set values, repeated and missing values, text and integers), batch size, worker count and completion order of batches",
"tests index one text corpus with one field and check totals; they never vary batch boundaries, completion order, mixed value types or fields",
[IX],[("Index.index","hyperreal/index.py:Index.index"),("batch worker","hyperreal/index.py:_index_docs"),("merge SQL","hyperreal/index.py: replace into inverted_index ... group by field, value")],
["Index[...]","lookup_feature","lookup_feature_id","iter_field_docs","indexed_field_summary","convert_query_to_keys"],
[("doc_key","doc id <-> corpus key",SC),("inverted_index","feature id, field, value, docs",SC),("field_summary","per field totals",SC)])

p("C02","The positional index records every occurrence exactly once",
"When positions are requested, every occurrence of a value in a sequence field is recorded exactly once, at its offset in its own document, and nothing else is recorded; set-valued fields and empty sequences record none. This holds for any batch size and order of batch completion and survives reindexing, and the per-field position totals equal the number of occurrences; without positions requested no field is positional.",
["inputs","configurations","schedules"],"every corpus with sequence fields (empty, repeated, absent in some documents), batch size and completion order, reindexing with and without positions",
"tests only check a few aggregate position counts on one corpus with one sequence field",
[IX],[("position bookkeeping in batch worker","hyperreal/index.py:_index_docs"),("position merge SQL","hyperreal/index.py: insert into position_index / position_doc_map")],
["score_passages_dnf with window 0 (one passage per occurrence)","indexed_field_summary","positional_fields"],
[("position_index","positions per feature and batch",SC),("position_doc_map","document boundaries per field and batch",SC)])

p("C03","Reindexing keeps feature ids, the cluster model and pins",
"Reindexing after the corpus changed gives the same content as indexing the new corpus from scratch, except that every feature that ever existed keeps its feature id, and features no longer present stay known with no documents. Cluster membership, cluster ids and feature and cluster pins are unchanged by reindexing, while every stored statistic of the clusters and of the features inside them reflects the new documents.",
["histories","inputs"],"every history of corpus changes, reindexing runs and model edits",
"the test suite reindexes an unchanged corpus once",
[IX],[("feature id preserving merge","hyperreal/index.py:Index.index"),("cluster refresh after indexing","hyperreal/index.py:_update_changed_clusters")],
["lookup_feature_id before/after","cluster_features","cluster_docs","pinned_cluster_ids"],
[("inverted_index.feature_id","stable feature ids",SC),("cluster, feature_cluster","model",SC)])

p("C04","Indexing is atomic under failure, interruption and crash",
"If indexing fails, is interrupted or the process dies at any point, a session opened afterwards sees exactly the previous index and model, or exactly the complete new one with up to date cluster statistics, never a mixture; other sessions reading meanwhile see the same. Afterwards the same session and new sessions remain usable, indexing can be retried successfully, and temporary files made by the run are removed unless the process itself was killed.",
["crash_points","fault_sequences","schedules"],"every statement of the indexing run at which an error, an interruption or a process death can happen, every failing batch, and every instant at which another session reads",
"tests never inject a failure or crash into indexing",
[IX],[("single transaction around indexing","hyperreal/index.py:Index.index begin/commit/rollback"),("temporary index file","hyperreal/index.py: temp_index")],
["state seen by a fresh session after the failure","state seen by a concurrent reader","retry of index()"],
[("whole database","committed state","SQLite file")])

p("C05","Passage search returns exactly the matching passages",
"A passage query (an AND of OR-clauses with a window) returns, per document and field, exactly the maximal runs of qualifying positions: a position of a clause qualifies when it lies within the window of a position of every other clause in the same document (with three or more clauses the windows are narrowed clause by clause, starting with the rarest clause of the indexed batch); consecutive qualifying positions at most the window apart form one passage, reported with its first and last offset and its number of qualifying positions. Passages never cross documents, results for one or two clauses do not depend on how documents were batched, single positions count as passages, clauses mixing several fields are evaluated separately per field, and features given by id or by key are equivalent.",
["inputs","configurations"],"every small corpus, query, window size and batch layout",
"tests check a handful of queries on one text and only inequality relations between counts",
[IX,UT],[("passage scoring","hyperreal/index.py:_score_passages_dnf"),("window expansion bounded by documents","hyperreal/utilities.py:expand_positions_window")],
["score_passages_dnf"])

p("C06","Collocation counts are exact within the requested field",
"Counting collocations of a set of features in a field returns, for each other feature of that same field, exactly how many of its occurrences lie within the window of some occurrence of the given features in the same document, together with its total number of occurrences; features of other fields never appear. The reported totals are the number of occurrences of the given features and the number of positions covered by their windows, independent of batch layout.",
["inputs","configurations"],"every small corpus with one or several sequence fields, feature set, window size and batch layout",
"no test checks collocation counts against an oracle",
[IX,UT],[("collocation counting","hyperreal/index.py:_count_collocations"),("window expansion","hyperreal/utilities.py:expand_positions_window")],
["count_collocations"])

p("C07","Concordances and rendered passages show the exact text windows",
"For each document of the query and each requested feature, the concordance contains one window per occurrence in a sequence field, consisting of exactly the surrounding values up to the window size on each side clipped to the document, in order, and an empty list for a match in a set field. Rendered passages show exactly the values from the overhang before the first matching position to the overhang after the last one, one text per scored passage, for every requested document (or for a sample of the requested size).",
["inputs"],"every small corpus, query, feature list, window, overhang and sample size",
"tests only check that something is returned",
[IX],[("window extraction","hyperreal/index.py:extract_matching_feature_windows"),("joining","hyperreal/index.py:concordances"),("passage text","hyperreal/index.py:_construct_passages")],
["extract_matching_feature_windows","concordances","render_passages_table"])

p("C08","Model edits do exactly what they say and keep the model a partition",
"Initialising, creating, merging, deleting clusters, deleting features and pinning or unpinning change exactly the requested features and clusters and nothing else: initialising assigns every feature of the chosen fields with enough documents to one of n clusters whose sizes differ by at most one, creating moves the features to one fresh cluster id, merging moves everything into the first cluster, and unknown ids have no effect (creating from an unknown feature is refused). At all times each feature is in at most one cluster, every listed cluster is non-empty, emptied clusters disappear, and pins last until changed or until their cluster or feature leaves the model.",
["histories"],"every history of model edits with any arguments, including repeated, unknown and empty ones",
"tests run a few hand-written edit sequences",
[IX,SC],[("edit methods","hyperreal/index.py: initialise_clusters .. pin_clusters"),("triggers","hyperreal/_index_schema.py: insert/update/delete_feature_checks"),("housekeeping","hyperreal/index.py:_update_changed_clusters")],
["cluster_ids","cluster_features","top_cluster_features","pinned_cluster_ids"],
[("feature_cluster","feature -> cluster, pin",SC),("cluster","cluster rows, pin",SC)])

p("C09","Cluster summaries always match the features of the cluster",
"In every committed state, for every cluster, the stored set of documents is the union of the documents of its features, its document count is the size of that set, its feature count the number of its features and its weight the sum of their document counts, and the document count kept with each clustered feature is the feature's own. Listings follow them: clusters are listed by descending document count, features inside a cluster by descending document count, cut to the requested number, and the query of a cluster returns that union with the per-document number of matching features.",
["histories","schedules"],"every history of edits, refinements and reindexing, observed at every commit",
"tests check summaries only after a few edits and never at intermediate commits",
[IX,SC],[("housekeeping before commit","hyperreal/index.py:atomic/_update_changed_clusters"),("triggers marking changes","hyperreal/_index_schema.py")],
["cluster_docs","top_cluster_features","cluster_features","cluster_query","cluster table"],
[("cluster(feature_count, docs_count, weight, doc_ids)","summary",SC),("changed_cluster","pending updates",SC)])

p("C10","Refinement conserves features and respects pins and selections",
"Refining never adds, loses or duplicates a feature of the model. Pinned clusters keep exactly their features, pinned features stay in their cluster, clusters outside the selection keep exactly their features, and all pins are kept.",
["inputs","histories","configurations"],"every model, selection, pin state, target, tolerance, acceptance probability, group testing setting, probe query and random seed",
"tests check a handful of settings on one corpus",
[IX],[("refinement loop","hyperreal/index.py:_refine_feature_groups"),("selection and id mapping","hyperreal/index.py:refine_clusters")],
["feature -> cluster map before and after refine_clusters"])

p("C11","Refinement reaches the target without id clashes or emptied clusters",
"Refining without a target (or with target zero) keeps every cluster of the selection alive; a larger target never reduces the number of clusters, adds at most the missing number, reaching it when features are plentiful, and gives new clusters ids not used by any live cluster; a smaller target dissolves the clusters that contribute least to the objective, down to exactly the target, except that clusters holding pinned features are kept. Moves never take a cluster below the minimum cluster size other than by dissolving it, and requests that leave nothing to do (no clusters, no movable features) leave the model unchanged.",
["inputs","histories","configurations"],"every model, selection, pin state, minimum size, iteration count, target and random seed",
"tests use one corpus and compare counts for a few targets with no pins or partial selections",
[IX],[("splitting and dissolving","hyperreal/index.py:_refine_feature_groups"),("new id mapping","hyperreal/index.py:refine_clusters")],
["cluster_ids and sizes before and after refine_clusters"])

p("C12","Refinement moves features only to the best scoring cluster",
"With full acceptance, exhaustive comparison and one iteration, every movable feature ends in the cluster whose objective gains most from it (gain defined by the documented objective over document sets restricted to the probe query, features sharing no document scoring worst), or stays where it was; it stays only if that cluster is already the best or its cluster is at the minimum size. With acceptance probability zero nothing moves.",
["inputs"],"every small model, document sets, probe query and random seed",
"tests never compute the objective; they check only that refinement changes something",
[IX],[("objective and deltas","hyperreal/index.py:measure_feature_contribution_to_cluster"),("best move selection","hyperreal/index.py:_score_proposed_moves")],
["feature -> cluster map before and after refine_clusters"])

p("C13","Every edit is all-or-nothing and leaves the session usable",
"If an edit (any model edit or refinement) fails, is interrupted, or the process dies at any point inside it, the stored model is exactly as before or exactly as after the whole edit, with matching summaries, and never in between. After a failure or interruption reported to the caller the session is usable: later edits are applied, durable and visible to other sessions.",
["crash_points","fault_sequences"],"every database statement and worker task of every kind of edit at which an error, interruption or process death can strike, followed by further edits",
"tests never inject faults",
[IX],[("savepoint wrapper","hyperreal/index.py:atomic"),("housekeeping inside the transaction","hyperreal/index.py:_update_changed_clusters")],
["state seen by a fresh connection after the fault","outcome of later edits"],
[("transaction level / changed flag","nesting bookkeeping","hyperreal/index.py:Index")])

p("C14","Concurrent sessions behave as if their operations ran one at a time",
"When several sessions use the same index, every edit that reports success has the effect of running alone on the state committed just before it, an edit that cannot do so fails without effect, and no reader ever observes a partly applied edit or summaries that do not match the features. A session's next operation sees everything committed before it began, including the part of it which is done by background workers.",
["schedules"],"every interleaving of two or more sessions at database statement boundaries",
"tests use a single session",
[IX,DB],[("savepoint transactions in WAL mode","hyperreal/index.py:atomic"),("worker processes get feature lists, not uncommitted state","hyperreal/index.py:_update_changed_clusters")],
["committed states in order","results of concurrent calls"])

p("C15","A fixed seed gives the same result whatever the workers do",
"Two sessions created with the same seed on the same index contents and given the same calls produce the same models, samples and query results, regardless of the number of workers and of the order and timing in which background tasks finish. Different seeds may differ, and no other process state influences the result.",
["schedules","configurations"],"every completion order of background tasks, worker count and hash seed, for every operation using randomness",
"tests repeat a run with one pool whose schedule hardly varies",
[IX],[("per index random generator","hyperreal/index.py:Index.random"),("results consumed in submission order","hyperreal/index.py:_score_proposed_moves")],
["model after refine/initialise","sampled documents"])

p("C16","Pivoting ranks clusters and features by exact similarity",
"Pivoting by a query returns every (selected) cluster sharing a document with the query and no other, in descending order of the exact Jaccard similarity with the cluster's documents. Each cluster comes with the min(top_k, matches) features of highest exact Jaccard similarity with the query, in descending order, never one without shared documents, with the right id, field, value and similarity.",
["inputs"],"every model, query, cluster selection and top_k, including ties",
"tests check a few pivots by spot comparisons",
[IX],[("cluster ordering","hyperreal/index.py:pivot_clusters_by_query"),("bounded heap with early exit","hyperreal/index.py:_pivot_cluster_features_by_query_jaccard")],
["pivot_clusters_by_query"])

p("C17","Ranked queries count matches exactly and keep the best documents",
"Combining several sets of documents returns exactly the documents in at least one of them, and for each document the exact number of sets it belongs to. Selecting the top k returns all matching documents if there are at most k, and otherwise a set of at least k documents in which every excluded document has no higher count than any included one and only documents tied at the lowest included count exceed k.",
["inputs"],"every family of sets (including repeated and empty ones) and every k",
"tests check a few sums and sizes on one corpus",
[UT,IX],[("bit sliced accumulation","hyperreal/utilities.py:compute_bitslice"),("bit sliced selection","hyperreal/utilities.py:bstm"),("decoding","hyperreal/utilities.py:weight_bitslice")],
["union_bitslice","cluster_query","compute_bitslice","weight_bitslice","bstm"])

p("C18","Structured samples and their CSV export are faithful",
"Sampling by clusters visits the selected clusters in increasing document count and takes from each min(n, available) of its documents not already taken (all when n is 0), never the same document twice, and reports for every cluster of the model exactly the sampled documents it covers. The exported CSV has exactly one row per sampled document carrying that document's own key and table fields, the cluster it was sampled for, and a mark under exactly the clusters that cover it.",
["inputs","histories"],"every model, selection, sample size and seed",
"tests check only sizes for one model",
[IX],[("sampling","hyperreal/index.py:structured_doc_sample"),("export","hyperreal/index.py:export_document_sample")],
["structured_doc_sample","export_document_sample output file"])

p("C19","Documents retrieved for a query are exactly the query's documents",
"Converting a query to keys, retrieving, sampling and rendering documents return exactly the documents of the query, each once, with its own id, key and content; sampling returns min(n, size) distinct members of the query and leaves the query unchanged. Operations that need a corpus are refused with the documented error when the index has none or the corpus lacks the capability, and never touch the index.",
["inputs"],"every corpus, query (including empty), sample size and corpus capability",
"tests check totals only",
[IX,CO],[("key mapping","hyperreal/index.py:convert_query_to_keys/docs"),("sampling","hyperreal/index.py:sample_bitmap"),("capability guard","hyperreal/index.py:requires_corpus")],
["convert_query_to_keys","docs","sample_bitmap","render_docs_html","render_docs_table"])

p("C20","Cross tabulations and the cluster graph are exact",
"Intersecting named queries with a field returns the field's values in order, their document counts, and for each query exactly the number of its documents with each value. The cluster graph has one node per cluster with its document count and its top features as label, and one edge between exactly the pairs of clusters that share documents, weighted by their exact Jaccard similarity.",
["inputs","schedules"],"every index, set of queries, field and model, and every completion order of background tasks",
"tests check node and edge existence on one model",
[IX],[("field intersection","hyperreal/index.py:intersect_queries_with_field"),("graph","hyperreal/index.py:create_cluster_cooccurrence_graph")],
["intersect_queries_with_field","create_cluster_cooccurrence_graph"])

p("C21","A plain text corpus holds exactly the texts of its last replacement",
"Replacing the documents of a plain text corpus leaves exactly the given texts, in order, one document each, with unique keys that retrieve them; iterating, retrieving by any list of keys in any order, and rendering return those texts unchanged. If replacing fails or dies part way the previous documents remain intact and the failure is reported to the caller.",
["histories","crash_points","fault_sequences","inputs"],"every history of replacements with any texts and any point of failure",
"tests load one file once",
[CO],[("replacement in a savepoint","hyperreal/corpus.py:PlainTextSqliteCorpus.replace_docs"),("retrieval","hyperreal/corpus.py:PlainTextSqliteCorpus.docs/keys")],
["keys","docs","render_docs_html","render_docs_table"])

p("C22","The StackExchange corpus keeps sites apart and document keys stable",
"Adding site dumps makes each question and answer of a site one document with a key that stays the same when the same site is added again, updated content replacing the old; other post types are not documents. Posts, tags, authors and comments are only ever combined within the same site (answers take the tags and title of their question), and a dump that fails part way leaves the corpus as it was.",
["histories","inputs","fault_sequences"],"every history of adding and re-adding dumps of several sites with overlapping ids, and every failure point",
"the only test needs data files that are not present",
[CO],[("surrogate keys","hyperreal/corpus.py:StackExchangeCorpus.add_site_data"),("site qualified joins","hyperreal/corpus.py:StackExchangeCorpus.docs/_get_rendered_doc_fields")],
["keys","docs","index","render_docs_html","render_docs_table"])

p("C23","Opening a database is safe and migration preserves its content",
"Opening an index written by any supported older version upgrades it once, keeping all documents, features, clusters and memberships, with all cluster and field statistics made correct; reopening changes nothing. A failure during the upgrade loses nothing: it leaves the old version intact and openable again, or an upgraded index whose statistics are completed when it is opened the next time. Opening a database that is not an index, or of an unknown version, is refused with the migration error and leaves its content unchanged, and checking whether a path is an index answers true exactly for index databases, whatever the file name or content.",
["configurations","crash_points","inputs"],"every supported old version with any content, every failure point, and arbitrary other files",
"tests only ever open databases of the current version",
[SC,IX],[("versioned migration in one transaction","hyperreal/_index_schema.py:migrate"),("identity check","hyperreal/index.py:Index.is_index_db")],
["Index(path)","is_index_db","content after opening"])

p("C24","The web interface shows and edits exactly the underlying index",
"Every editing request has exactly the effect of the corresponding operation with the submitted arguments, works only by POST, and redirects to a page that exists when the target still exists; viewing requests change nothing. Pages and the exported spreadsheet show exactly the clusters, features, document counts and documents the index returns for the same query, unknown indexes and clusters are answered with not found, and each request releases the index it opened.",
["histories","inputs"],"every sequence of requests with any valid parameters, on any model",
"tests issue a few requests and mostly check status codes",
[SV],[("request handlers","hyperreal/server.py"),("index per request","hyperreal/server.py:lookup_index/cleanup_index")],
["HTTP responses","index state after each request"])

p("C25","The command line runs exactly the documented operations",
"Creating a plain text corpus stores one document per line of the file, dropping only blank ones, with lines that are quoted JSON strings decoded; indexing, modelling, sampling and exporting commands act on exactly the given files with the given options, and give the same result as the corresponding library calls. Exports contain every cluster and feature of the model (limited to the requested number of features), and a file that is not an index is refused without being modified.",
["inputs","configurations","histories"],"every input file and combination of options",
"tests run each command once on one file",
[CL],[("commands","hyperreal/cli.py")],
["corpus content, index content and output files after each command"])
p("C26","A corpus of tweets is the latest version of what was collected on purpose",
"The documents of a Twittersphere corpus are exactly the tweets which were collected directly, each once and in order; every document shows the latest observation of the tweet and the latest profile of its author, however often and in whatever order observations were added. Its features are those documented: the words of its text without links, mentions and hashtags, its hashtags, mentions, external links and their hosts, what it replies to or quotes and the latest name of those accounts when known, and when it was made; a retweet is only indexed as a pointer to the original. Such a corpus can be indexed with the default options, a reader sees one version throughout, retrieval by key gives the documents asked for, and other databases are refused unchanged.",
["histories","inputs"],"every history of collections of tweets and users, and every reader in between",
"the test of this corpus is skipped",
[CO],[("TwittersphereCorpus","hyperreal/corpus.py:TwittersphereCorpus"),("index command","hyperreal/cli.py:twittersphere-corpus index")],
["documents, features and renderings of the corpus; content of the index made by the command"])

p("C27","Free text becomes the words it is made of",
"Text is cut at Unicode word boundaries into words which contain no blanks and are never empty; nothing but blanks and free-standing or leading apostrophes is lost, order is kept, and letter case and the shape of quotes make no difference. What stands between two blanks gives the same words whatever else is in the text, so the same word is the same feature in every document. In social media posts links, mentions and hashtags are removed up to the next blank before that. Times are rounded down to the start of their minute, hour, day, month and year in their own time zone.",
["inputs"],"every text over the classes of symbols the cutting rules distinguish",
"tests only index fixed corpora and never look at words",
["hyperreal/utilities.py"],[("tokenisers","hyperreal/utilities.py:tokens/social_media_tokens"),("time buckets","hyperreal/utilities.py:round_datetime")],
["words returned for a text","times returned for a time"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
