"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
I, D, U, S, C = ("hyperreal/index.py", "hyperreal/db_utilities.py", "hyperreal/utilities.py",
                 "hyperreal/_index_schema.py", "hyperreal/corpus.py")
W, L = "hyperreal/server.py", "hyperreal/cli.py"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "A feature query returns exactly the documents containing that feature",
  "After a corpus is indexed, looking up any (field, value) returns exactly the set of documents whose extracted features contain that value in that field, its recorded document count is the size of that set, and looking it up by feature id or by (field, value) agrees. Every corpus document has exactly one document id and every document id exactly one key. None of this depends on the batch size, on how many batches run at once, on the order in which background batches finish, or on whether positions are also recorded.",
  ["inputs", "schedules", "configurations"], "every corpus content, batch size, worker count and completion order",
  "Tests compare two aggregate totals for one fixed corpus with batch sizes 10 and 1; they never compare the per-feature sets and never vary the completion order.",
  [I, D, S], [("Index.index", I), ("_index_docs", I), ("Index.__getitem__", I), ("RoaringUnion", D)],
  [("inverted_index", "feature -> matching document ids and their count", S), ("doc_key", "document id <-> corpus key", S)],
  ["Index[...]", "Index.lookup_feature", "Index.lookup_feature_id", "Index.convert_query_to_keys"])
p("C02", "Re-indexing keeps feature ids and the model, and replaces the content",
  "Indexing an already indexed corpus again makes the index describe exactly the new corpus content: features still present keep their feature ids, features no longer present match no documents, and nothing of the previous documents remains visible. The clustering model survives: every feature keeps its cluster and every pin, and all cluster document sets and counts are recomputed against the new content.",
  ["inputs", "histories"], "every pair of old index content (with any model on it) and new corpus content",
  "Tests re-index the same unchanged corpus without a model and compare ids only, so vanished features, new features and clusters over re-indexing are never reached.",
  [I, S], [("Index.index", I), ("replace into inverted_index preserving feature_id", I), ("Index._update_changed_clusters", I)],
  [("inverted_index", "features of the old and new content", S), ("feature_cluster", "model assignments that must survive", S)],
  ["Index.lookup_feature", "Index[...]", "Index.cluster_features", "Index.cluster_docs"])
p("C03", "Recorded positions reconstruct every token sequence exactly",
  "When a corpus is indexed with positions, the recorded positions of a sequence field identify, for every document, exactly which value occurs at which offset of that document's token sequence, no more and no less, and never mix documents. Documents whose field is empty, absent or not a sequence contribute no positions, and the per-feature position counts and the per-field total equal the number of recorded positions. This holds for every way of splitting the corpus in batches.",
  ["inputs", "configurations"], "every assignment of token sequences to documents and every batch size",
  "Tests compare the total number of positions with the number of tokens; an offset or boundary mistake that preserves the total passes.",
  [I], [("_index_docs position loop", I), ("position_index/position_doc_map population in Index.index", I)],
  [("position_index", "positions of a feature within a batch", S), ("position_doc_map", "documents and boundaries of a batch", S)],
  ["position_index, position_doc_map, field_summary tables of the index database"])
p("C04", "Indexing is all-or-nothing",
  "If indexing fails at any point (the corpus, a background batch or a database statement raises) the error reaches the caller and the index still describes exactly what it described before, with the model intact and the index object still usable. While indexing runs, no other reader of the index ever sees a partially replaced index: it sees the complete old content or the complete new content. Asking to index inside an open transaction is refused without changing anything.",
  ["fault_sequences", "crash_points", "inputs"], "every point at which indexing can fail or be observed, for every old and new content",
  "No test makes indexing fail or reads the index while it is being rebuilt.",
  [I], [("transaction around Index.index with rollback on error", I), ("background batches write to a temporary database", I)],
  [("committed state", "what another connection sees", D)], ["a second connection to the index database", "Index[...]"])
p("C05", "Cluster summaries always agree with cluster membership",
  "After any model-changing operation (initialise, delete, merge, create, feature removal, pinning, refinement) every cluster that exists has at least one feature, its feature count is the number of its features, its document set is exactly the union of its features' document sets, its document count is the size of that union and its weight is the sum of its features' document counts. Every feature in the model belongs to exactly one existing cluster and its recorded count is the feature's document count. Deleted or emptied clusters disappear.",
  ["histories", "inputs"], "every reachable model state, every operation with arbitrary arguments, hence histories of any length",
  "Tests run one fixed editing sequence and look at counts of clusters only; document sets, weights and counts after edits are never compared.",
  [I, S], [("atomic(writes=True) housekeeping", I), ("Index._update_changed_clusters", I), ("_union_query", I), ("feature_cluster triggers", S)],
  [("cluster", "materialised summary of each cluster", S), ("changed_cluster", "clusters whose summary is stale", S)],
  ["Index.cluster_docs", "Index.cluster_ids", "Index.top_cluster_features", "Index.cluster_features"])
p("C06", "Model edits do exactly what was asked and nothing else",
  "Deleting features or clusters removes exactly those features from the model; merging moves exactly the features of the listed clusters into the first listed one; creating a cluster puts exactly the given features in a cluster whose id was not in use; pinning sets exactly the given pins; initialising assigns every feature of the selected fields with at least the requested number of documents to exactly one of the requested clusters, evenly, and no other feature. Every feature, cluster and pin not named by the operation is left as it was. Repeated, unknown or overlapping arguments do not change this.",
  ["inputs", "histories"], "every model state and every argument list, including duplicates, unknown ids and already moved features",
  "Tests apply each operation once to a fresh model with well-formed arguments and compare cluster counts, not assignments.",
  [I, S], [("delete_clusters/merge_clusters/delete_features/create_cluster_from_features/pin_*/initialise_clusters", I), ("Index.next_cluster_id", I)],
  [("feature_cluster", "assignment of features to clusters, with pins", S)], ["Index.cluster_features", "Index.cluster_ids", "Index.pinned_cluster_ids"])
p("C07", "A failed or interrupted model edit leaves the model unchanged",
  "If a model-changing operation raises at any point, including an interrupt and including a failure of its background work, the exception reaches the caller and the stored model is exactly what it was before the operation. The index object remains usable: it holds no open transaction, and a following operation takes effect durably. Edits made inside a larger edit that fails are undone with it.",
  ["fault_sequences", "histories"], "every database statement or background call at which the operation can fail, for every operation and model state",
  "No test makes an editing operation fail.",
  [I], [("atomic() savepoint wrapper", I), ("Index._update_changed_clusters", I)],
  [("savepoint stack", "open transaction state of the connection", I)], ["a second connection to the index database", "Index.cluster_features"])
p("C08", "Refinement only moves what it may move",
  "Automatic refinement keeps exactly the same set of features in the model: none is lost, added or duplicated. Pinned features stay in their cluster, pinned clusters neither lose nor gain features, and clusters that were not selected for refinement neither lose nor gain features. Newly made clusters get ids that were not in use, whatever similarity scores the features have and however the random choices fall.",
  ["inputs", "histories"], "every model, pin set, cluster selection, target, similarity outcome and random draw",
  "Tests refine one corpus with one random stream and check two pinned features and cluster counts.",
  [I], [("Index.refine_clusters", I), ("Index._refine_feature_groups", I), ("Index._update_cluster_feature", I)],
  [("cluster_feature/feature_cluster", "working assignment during refinement", I)], ["Index.cluster_features", "Index.cluster_ids"])
p("C09", "Refinement completes and reaches the requested number of clusters",
  "Refining a valid model with valid settings always completes without an error, for every combination of pins, selected clusters, group testing and target. Everything refinement decided is stored: when splitting, every new cluster it formed exists in the stored model with its features; when reducing, no more clusters remain than the target unless pins force it. With no change in target, no selected cluster at the minimum size is emptied.",
  ["inputs", "configurations", "histories"], "every model, pin set, selection, target, grouping, similarity outcome and random draw",
  "Tests split clusters one at a time into two and dissolve 16 clusters to 12 without pins; larger splits of one cluster, all-pinned selections and group testing during dissolving are not reached.",
  [I], [("Index._refine_feature_groups", I), ("Index._find_best_moves", I), ("Index._score_proposed_moves", I), ("new cluster id mapping in Index.refine_clusters", I)],
  (), ["Index.refine_clusters", "Index.cluster_ids", "Index.cluster_features"])
p("C10", "Feature contribution scores equal the change in the objective",
  "The score reported for adding a feature to a cluster, or for a feature already in it, equals the difference in the documented objective of the cluster with and without that feature, computed on the (probe-restricted) document sets, except for the stated conventions: a feature sharing no document with the rest of the cluster scores -1 and a feature that is all of its cluster scores 0. The reported objective is that of the cluster as given. Every feature of a non-empty cluster and every feature requested for it gets exactly one score, and the proposed moves are the highest-scoring clusters among those scored.",
  ["inputs"], "every family of document sets, cluster, candidate set and probe query",
  "No test looks at a score; a wrong incremental formula still yields some clustering.",
  [I], [("measure_feature_contribution_to_cluster", I), ("Index._score_proposed_moves", I)],
  (), ["measure_feature_contribution_to_cluster", "Index._score_proposed_moves"])
p("C11", "Bit-sliced counting and top-k selection are exact",
  "The union and bit-sliced accumulation of any list of document sets record, for every document, exactly how many of the sets contain it. Top-k selection returns a subset of the matching documents such that every returned document has at least the count of every document left out, with at least min(k, matches) documents, more only when the extra documents tie at the lowest returned count.",
  ["inputs"], "every list of document sets and every k",
  "Tests compare with a counter for one model and k=5 by the size of the result; carries across several slices and ties at other k are not reached.",
  [U, I], [("compute_bitslice", U), ("bstm", U), ("weight_bitslice", U), ("Index.union_bitslice", I), ("Index.cluster_query", I)],
  (), ["utilities.compute_bitslice", "utilities.bstm", "utilities.weight_bitslice", "Index.cluster_query"])
p("C12", "Passage search reports only and all genuine passages",
  "A passage search reports a document only if, in some field, that document itself contains an occurrence of every clause that has features in that field, with an occurrence of every other such clause within the window of a common occurrence (for two clauses: within the window of each other), and each reported passage is a span of that one document starting and ending at such query occurrences, with the correct number of them in it; occurrences at most the window apart belong to the same passage. When the window is at least as long as the documents, the reported documents are exactly those containing every clause. The passages of a document do not depend on which other documents are in the index or on how it was split in batches.",
  ["inputs", "configurations", "schedules"], "every placement of query occurrences in documents, every clause list, window and batch split",
  "The test uses one query with a window longer than any document in a corpus of one-line documents and compares a count.",
  [I, U], [("Index.score_passages_dnf", I), ("_score_passages_dnf", I), ("expand_positions_window", U)],
  [("position_index/position_doc_map", "recorded positions and document boundaries", S)], ["Index.score_passages_dnf"])
p("C13", "Window expansion and collocation counts respect documents and fields",
  "Expanding a set of positions by a window yields exactly the positions of the same documents at distance at most the window, and never positions of a neighbouring document. Collocation counting for a field reports, for every other feature of that field, exactly how many of its occurrences lie in those windows and how many occurrences it has, totalled over all batches, and the totals of query and window positions are exact; features of other fields are never counted.",
  ["inputs", "configurations"], "every set of positions, document boundary layout, window size and batch split",
  "There is no test of collocation counting, and no unit test of window expansion.",
  [I, U], [("expand_positions_window", U), ("Index.count_collocations", I), ("_count_collocations", I)],
  (), ["utilities.expand_positions_window", "Index.count_collocations"])
p("C14", "Concordances and rendered passages show the right words",
  "For every document and every requested feature, concordance extraction returns one window per occurrence, in order, consisting of exactly the tokens at most the window size before and after the occurrence, clipped to the document; features of set-valued fields are reported as matched without windows, and features that do not occur are not reported. A rendered passage contains every token from its first to its last position plus up to the requested overhang on both sides. Every passage handed in is rendered exactly once, with its own document, whatever the batching and completion order.",
  ["inputs", "schedules"], "every token sequence, feature selection, window, overhang and batching",
  "The test only checks that windows contain one of two words and are not too long.",
  [I], [("Index.extract_matching_feature_windows", I), ("Index.concordances", I), ("_construct_passages", I), ("Index.render_passages_table", I)],
  (), ["Index.concordances", "Index.extract_matching_feature_windows", "Index.render_passages_table"])
p("C15", "Samples are genuine samples of the requested size",
  "Sampling a document set returns a subset of it with exactly min(requested, available) members and never modifies the original. A structured sample takes from each selected cluster only documents of that cluster, never the same document twice, processing clusters from least to most frequent and taking min(requested, documents of the cluster not sampled yet) (all of them if the request is 0); the companion map lists, for every cluster, exactly the sampled documents that belong to it.",
  ["inputs", "histories"], "every document set, cluster family, selection, size and random draw",
  "Tests check total sizes of one sample on one model.",
  [I], [("Index.sample_bitmap", I), ("Index.structured_doc_sample", I)], (), ["Index.sample_bitmap", "Index.structured_doc_sample"])
p("C16", "Query results carry the right document, key and id",
  "For every query, each matching document is returned exactly once and the returned document id, corpus key and content (or rendering) all belong to the same document; nothing outside the query is returned. Exporting a document sample writes one row per sampled document, in which the key, the content, the cluster it was sampled for and its cluster membership flags all belong to that document. This holds for every relation between the order of document ids and the order of corpus keys.",
  ["inputs"], "every document-id/key assignment and every query and sample",
  "Tests use a corpus whose keys happen to be in the same order as document ids, and compare lengths.",
  [I], [("Index.convert_query_to_keys", I), ("Index.docs", I), ("Index.render_docs_html/table", I), ("Index.export_document_sample", I)],
  [("doc_key", "document id <-> corpus key", S)], ["Index.docs", "Index.render_docs_html", "Index.render_docs_table", "Index.export_document_sample"])
p("C17", "Pivoting ranks clusters and features exactly by similarity",
  "Pivoting by a query returns exactly the clusters (of the requested ones) that share a document with the query, in order of decreasing Jaccard similarity with it, each with its true similarity. Within a cluster it returns the top-k features of the cluster by true Jaccard similarity with the query in decreasing order, leaving out features sharing no document with the query; early termination never loses a feature that belongs in the top k.",
  ["inputs", "schedules"], "every query, cluster family, feature family, k and background completion order",
  "The test asserts that one known feature comes first in some cluster for two queries.",
  [I], [("Index.pivot_clusters_by_query", I), ("_pivot_cluster_features_by_query_jaccard", I), ("_calculate_query_cluster_cooccurrence", I)],
  (), ["Index.pivot_clusters_by_query"])
p("C18", "Cross-tabulations and the cluster graph report exact overlaps",
  "Intersecting queries with a field reports, for each value of the field in order, its exact document count and, for each query, exactly the number of documents shared with it, all lists aligned. The cluster graph has exactly one node per cluster with its document count, and exactly one edge for each pair of clusters sharing a document, weighted with their Jaccard similarity. Neither depends on background completion order.",
  ["inputs", "schedules"], "every family of document sets, every set of queries and completion order",
  "The only test of field intersection cannot run without downloaded data, and the graph test counts nodes.",
  [I], [("Index.intersect_queries_with_field", I), ("Index.iter_field_docs", I), ("Index.create_cluster_cooccurrence_graph", I)],
  (), ["Index.intersect_queries_with_field", "Index.create_cluster_cooccurrence_graph"])
p("C19", "Model listings and exports are complete and correctly ordered",
  "Listing a cluster's features returns exactly its features with their own field, value and document count in decreasing order of document count, truncated to the requested number without skipping a more frequent feature. Listing all clusters returns every cluster exactly once in decreasing order of document count. The exported cluster table (command line and web) has exactly one row for every feature in the model, under its own cluster, up to the requested number per cluster.",
  ["inputs"], "every model and every truncation",
  "Tests compare the number of listed clusters and the exit code of the export.",
  [I, L, W], [("Index.cluster_features", I), ("Index.top_cluster_features", I), ("export_clusters", L), ("Index.export_clusters", W)],
  (), ["Index.cluster_features", "Index.top_cluster_features", "hyperreal export clusters", "GET /index/0/export_clusters"])
p("C20", "The plain text corpus stores and returns every document faithfully",
  "Replacing the documents of a plain text corpus stores exactly the given texts, in order, one key each, and nothing of the previous contents; if the replacement fails part way the error reaches the caller and the previous contents remain. Reading documents by keys returns each requested document under its own key in the requested order. Creating a corpus from a text file stores every line that is not blank as one complete document.",
  ["inputs", "fault_sequences"], "every list of texts, previous content, failure point and text file content",
  "Tests create one corpus from one file and check the exit code.",
  [C, L], [("PlainTextSqliteCorpus.replace_docs", C), ("PlainTextSqliteCorpus.docs", C), ("plaintext_corpus_create", L)],
  [("doc", "stored texts", C)], ["PlainTextSqliteCorpus.docs", "PlainTextSqliteCorpus.keys", "hyperreal plaintext-corpus create"])
p("C21", "Stack Exchange documents are assembled from their own site and post only",
  "Every post of every imported site is one document whose text, author, tags and comments are those of that post on that site: answers carry the tags of their own question, and nothing from another post or from a site reusing the same numeric ids leaks in, in indexing, HTML and table rendering alike. Importing newer data for a site updates posts in place under the same document keys and leaves other sites untouched; a failed import changes nothing.",
  ["inputs", "histories", "fault_sequences"], "every combination of posts, users, tags and comments over several sites, imported in any order",
  "The Stack Exchange tests cannot run without downloaded data and would only check exit codes on one site.",
  [C], [("StackExchangeCorpus.add_site_data", C), ("StackExchangeCorpus.docs", C), ("StackExchangeCorpus._get_rendered_doc_fields", C), ("StackExchangeCorpus.index", C)],
  [("Post/comment/User/PostTag", "imported tables keyed by (site, id)", C)], ["StackExchangeCorpus.docs", "StackExchangeCorpus.render_docs_table", "StackExchangeCorpus.index"])
p("C22", "Upgrading an old index preserves its content and completes",
  "Opening an index written by any supported earlier schema version upgrades it to the current version and preserves every document key, feature, document set, cluster assignment and pin; afterwards cluster summaries and field summaries are correct for that content. The upgrade either completes or leaves the database at its old version. Opening an up-to-date index changes nothing.",
  ["inputs", "histories", "fault_sequences"], "every content of an index of every supported version, and every failure point",
  "No test opens an index of an older version.",
  [S, I], [("migrate", S), ("migrations", S), ("Index.__init__", I)],
  [("user_version", "schema version of the database", S)], ["Index(...)", "Index.cluster_docs", "Index.indexed_field_summary"])
p("C23", "Unrelated databases are recognised and never taken over",
  "Opening a database that is not an index (it has tables but no index schema version, or an unknown version) is refused with the documented migration error and leaves it as it was. The index-file check returns true exactly for existing index databases and false for everything else, without creating or changing a database.",
  ["inputs", "configurations"], "every schema version, application id and table content of the database being opened",
  "No test opens anything but a valid index.",
  [S, I], [("migrate", S), ("Index.is_index_db", I)], (), ["Index(...)", "Index.is_index_db"])
p("C24", "Only POST requests change the model, and they change what the form named",
  "No request with a method other than POST changes the stored model through any URL of the web interface. A POST to an editing URL applies exactly the operation of that URL to exactly the ids and settings submitted, whether one or several values were submitted, and redirects afterwards. A request for an index or cluster that does not exist is answered with not found.",
  ["inputs"], "every exposed URL, request method and submitted parameter list",
  "Tests only issue GET requests for three pages.",
  [W], [("cherrypy.tools.allow", W), ("ensure_list", W), ("ClusterOverview, FeatureOverview, Index handlers", W)],
  (), ["exposed handlers of the web server"])
p("C25", "Time buckets truncate correctly",
  "For every timestamp the minute, hour, day, month and year buckets are the latest instants of that granularity not after it, in its own time zone; two timestamps fall in the same bucket exactly when they agree on all components down to that granularity. Bucketing a bucket start returns it unchanged.",
  ["inputs"], "every timestamp",
  "No test of time buckets runs.", [U], [("round_datetime", U)], (), ["utilities.round_datetime"])
p("C26", "Tweets are indexed by their own content, retweets only as pointers",
  "An original tweet is indexed under its author, text, hashtags, mentions, links, conversation and referenced tweets, each from that tweet and hashtags and mentions lower-cased; a retweet is indexed only by when it was made, who made it, and the tweet and user it repeats, never by text, hashtags, mentions or links. Every tweet gets its five time buckets.",
  ["inputs"], "every combination of present and absent tweet properties",
  "The only Twitter test is skipped.", [C], [("TwittersphereCorpus.index", C)], (), ["TwittersphereCorpus.index"])
p("C27", "Results do not depend on background scheduling",
  "With the same index, the same random seed and the same calls, initialising, refining, sampling, passage search and collocation counting give the same results whatever order background work finishes in. Background workers see the model the caller sees.",
  ["schedules"], "every completion order of background work",
  "Tests run the same sequence twice with whatever schedule occurs and compare.",
  [I], [("futures consumed in submission order in Index._score_proposed_moves", I), ("Index.pool users", I)],
  (), ["Index.refine_clusters", "Index.score_passages_dnf", "Index.count_collocations", "Index.sample_bitmap"])
p("C28", "Web pages show exactly the model and the documents asked for",
  "The pages of the web interface show what the index holds: the overview lists every cluster once with its own document and feature counts and its own top features, ordered by size or by similarity to the query searched for; a cluster's page lists exactly its features and offers to pin it, or to unpin it if it is pinned, and the documents, concordances or passages shown are exactly those matching the cluster or the query asked for, sampled from all of them; the links and forms on a page name the features, clusters and queries next to which they stand, whatever their ids are.",
  ["inputs", "configurations"], "every model, every query, every combination of the pages' parameters",
  "Tests fetch three pages of one model with no parameters and compare the status code.",
  [W, "hyperreal/templates/index.html", "hyperreal/templates/cluster.html", "hyperreal/templates/details.html", "hyperreal/templates/macros.html"],
  [("Index.index", W), ("Cluster.index", W), ("Index.details", W), ("templates", "hyperreal/templates")],
  (), ["GET /index/0/", "GET /index/0/cluster/N/", "GET /index/0/details"])
p("C29", "The command line does what its arguments say",
  "Each command acts on exactly the corpus, index and files named and with exactly the settings given. `model` makes a new model only when there is none or a restart was asked for and confirmed, otherwise it refines the existing one, and a restart that is not confirmed changes nothing; `index` indexes every document of the corpus, recording positions as asked, and replaces the previous content; `sample` writes a genuine sample of at most the requested number of documents from each cluster, with their own text and clusters; `export graph` writes the cluster graph labelled with the most frequent features of each cluster; `serve` serves the given corpus and index, and refuses what is not an index.",
  ["inputs", "configurations"], "every combination of options, every model and every document set",
  "Tests run each command with one set of arguments and compare exit codes.",
  [L, I], [("model", L), ("make_two_file_indexer", L), ("make_csv_exporter", L), ("export_graph", L), ("plaintext_corpus_serve", L)],
  (), ["hyperreal model", "hyperreal plaintext-corpus index|sample|serve", "hyperreal export graph", "hyperreal serve", "hyperreal stackexchange-corpus add-site"])
p("C30", "Text is shown as text, never as markup",
  "Wherever fields, values, tokens, document keys, whole documents, user names, titles, tags, comments or licences appear in a web page or in a document rendered for one, they appear exactly as they are and never as markup, whatever characters they contain; only what the source delivers as HTML (the body of a Stack Exchange post) is markup. A rendered document names its own author, or says that the author was deleted.",
  ["inputs"], "every text of every field, value, document, user and comment",
  "Tests fetch pages of one harmless corpus and never look at their content.",
  [W, C, "hyperreal/templates/macros.html", "hyperreal/templates/cluster.html", "hyperreal/templates/details.html"],
  [("select_autoescape", W), ("StackExchangeCorpus.TEMPLATE", C), ("TwittersphereCorpus.TEMPLATE", C), ("templates", "hyperreal/templates")],
  (), ["GET /index/0/", "GET /index/0/cluster/N/", "GET /index/0/details", "StackExchangeCorpus.render_docs_html", "TwittersphereCorpus.render_docs_html"])
p("N01", "Tokenisation loses no words and is case-insensitive",
  "Tokenising any text yields its words in order, lower-cased with straight quotes, and never an empty token.",
  ["inputs"], "every text", "Tests tokenise one book and only compare totals with the same function.",
  [U], [("word_tokenizer", U)], (), ["utilities.tokens"])
p("N02", "Document sets survive storage unchanged",
  "Storing a document set in the database and loading it returns the same set, for every set of up to 2^32 document ids.",
  ["inputs"], "every document set", "Tests store only small sets.", [D], [("save_bitmap", D), ("load_bitmap", D)], (), ["Index[...]"])
p("N04", "Committed changes survive a crash of the machine",
  "Once a model edit or an indexing run has returned, its effects survive a crash of the process or the machine.",
  ["crash_points"], "every crash point", "No test crashes the process.", [I], [("pragma journal_mode=WAL", I)], (), ["the index database file"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
