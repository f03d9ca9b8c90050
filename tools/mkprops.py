"""Writes /verif/properties.jsonl (kept as code so the texts stay readable)."""
import json
from pathlib import Path
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe, hook_needed=None)))
EV="src/irspack/evaluation/evaluator.py"; EC="cpp_source/evaluator.cpp"; U="cpp_source/util.hpp"
p("C01","Ranking metrics equal their definitions",
 "For every score table, ground truth and cutoff, the reported hit, recall, precision, MAP, NDCG, Gini index, entropy, number of appeared items and catalog coverage equal their textbook definitions over the top-cutoff list of each user, where items are ranked by descending score with ties broken towards the lower item index and items scored minus infinity are never listed. Accuracy metrics are averaged over the users who have at least one relevant recommendable item; users whose list is empty count with zero. Precision divides by the number of items actually listed, recall by the number of relevant items (or by the smaller of that and the list length when the cutoff-aware recall is requested).",
 ["inputs","configurations"],"all score tables (ties, minus infinity), ground truths, cutoffs and recall flags",
 "The tests compare a few random tables; ties, empty lists, minus-infinity scores and their combinations form an unbounded input space, and the native tests are not part of the runnable suite here.",
 [EC,EV],[("Metrics::update / as_dict",EC+":105-180"),("EvaluatorCore::get_metrics_local",EC+":285-350")],["Evaluator.get_score(s)","Evaluator.get_scores_from_score_matrix"])
p("C02","Evaluation is independent of batching, threads and input route",
 "Evaluating the same scores gives the same report whatever the minibatch size, number of threads, chunk boundaries (including empty chunks), score precision, memory order, what the evaluator evaluated before, or whether scores come from a model, a full matrix or a stream of row blocks. A stream or matrix whose blocks have the wrong width, type or dimension, or whose rows do not add up exactly to the evaluated users, is rejected with an error instead of producing a report, as is a model whose user or item count does not fit.",
 ["schedules","inputs","histories"],"all ways of cutting the rows into blocks, all worker interleavings, all malformed streams",
 "Tests try one or two chunkings; the number of partitions and interleavings is exponential.",
 [EV,EC],[("chunk loop and coverage check",EV+":_get_scores_from_score_chunks_as_list"),("atomic work cursor",EC+":get_metrics"),("merge",EC+":Metrics::merge")],["Evaluator.get_scores_from_score_chunks","Evaluator.get_scores"])
p("C03","Seen or masked items never enter a ranking, and nothing else is masked",
 "When a model is evaluated, exactly the user's training interactions (shifted by the evaluator's user offset) are removed from the ranking, unless an explicit mask is given, in which case exactly the mask's non-zero entries are removed; when plain scores are evaluated without a mask, nothing is removed. The seen-removing score functions of a recommender return minus infinity exactly on the user's own known interactions and the unmodified score elsewhere. Score arrays and matrices owned by the caller or the model are left unchanged.",
 ["inputs","configurations"],"all interaction matrices, offsets, masks, minibatch sizes and evaluation routes",
 "A wrong row offset or mask polarity only shows for particular combinations of offset, batch boundary and mask.",
 [EV,"src/irspack/recommenders/base.py"],[("mask selection",EV+":_get_scores_as_list"),("get_score_remove_seen*","src/irspack/recommenders/base.py")],["Evaluator.get_scores","BaseRecommender.get_score_remove_seen"])
p("C04","Recommendable-item restrictions confine both ranking and ground truth",
 "With a global or per-user list of recommendable items, evaluation ranks only those items and counts only relevant items among them; a user with no relevant recommendable item is not averaged over, and catalog coverage divides by the number of distinct recommendable items (not-a-number if there are none). A per-user restriction given as lists or as a matrix means the same thing, and restrictions with duplicate or out-of-range items or with the wrong number of users are rejected.",
 ["inputs","configurations"],"all restrictions (global, per user, empty, permuted), ground truths, scores and minibatch sizes",
 "Tests cover one restriction shape each; interaction of restriction, batching, masks and empty lists is not sampled.",
 [EV,EC],[("recommendable lists",EV+":__init__"),("restricted ranking",EC+":get_metrics_local"),("restricted truth",EC+":cache_X_map")],["Evaluator(recommendable_items=...)","Evaluator(per_user_recommendable_items=...)"])
p("C05","Cold-user evaluation scores users by their known interactions only",
 "Evaluating unseen users feeds the model exactly their known interactions, batch by batch in order, masks exactly those (or exactly the given mask), and ranks training items followed by feature-only items. Feature-only items take part with the model's scores when the model can score items from features and are never listed when it cannot. Inconsistent numbers of rows, items or feature rows are rejected.",
 ["inputs","configurations"],"all histories, feature-item counts, masks in either width, batch sizes and model capabilities",
 "Tests use one model and one batch size; column bookkeeping between warm and feature-only items depends on every combination.",
 [EV],[("EvaluatorWithColdUser",EV+":EvaluatorWithColdUser"),("feature scorer hook","src/irspack/recommenders/base.py:_create_cold_user_with_item_features_scorer")],["EvaluatorWithColdUser.get_scores"])
p("C06","Data-frame evaluation equals evaluation of the recommendation lists",
 "Evaluating a recommendation table against a ground-truth table uses exactly the users present in both, takes each user's items in table order as the ranked list, and reports the same metrics as their definitions on those lists, for any user and item id types and any row interleaving of users. The input tables are not modified and the result does not depend on the number of threads.",
 ["inputs"],"all pairs of tables, id types, row orders and duplicates in the ground truth",
 "One or two hand-made frames in the tests; row interleavings and user-set mismatches are unbounded.",
 ["src/irspack/evaluation/evaluate_df_to_df.py",EC],[("evaluate_recommendation_df","src/irspack/evaluation/evaluate_df_to_df.py"),("evaluate_list_vs_list",EC)],["evaluate_recommendation_df"])
p("C07","Row-wise random split partitions every row with the promised size",
 "Splitting an interaction matrix returns two matrices of the same shape whose entries partition the input: every stored interaction appears, with its exact value, in exactly one of them. Each row holds out exactly the floor (or ceiling, when asked) of ratio times its interactions, or exactly the smaller of the requested count and its interactions; ratios outside [0,1] are rejected. The input is unchanged, the result is reproducible from the same seed, and over the seeds every interaction can be held out.",
 ["inputs","configurations"],"all matrices (fractional, negative, integer values), ratios, counts and seeds",
 "Tests use integer data at a few ratios; value fidelity and rounding at boundaries are not exercised.",
 ["src/irspack/utils/__init__.py",U],[("rowwise_train_test_split","src/irspack/utils/__init__.py"),("SplitFunction",U+":71-112")],["rowwise_train_test_split"])
p("C08","Temporal split holds out exactly each user's latest interactions",
 "Splitting a log by time partitions its rows: each user loses exactly the requested number of rows (capped by what they have), or the floor or ceiling of the ratio times their row count, and every held-out row is at least as recent as every kept row of the same user. Row contents and labels are preserved and the input table is not modified.",
 ["inputs"],"all logs (ties in time, repeated labels, any column types), counts and ratios",
 "A handful of frames in tests; ties, duplicate index labels and rounding combinations are not.",
 ["src/irspack/split/time.py"],[("split_last_n_interaction_df","src/irspack/split/time.py")],["split_last_n_interaction_df"])
p("C09","Partial-user holdout keeps users disjoint and interactions complete",
 "Splitting a log into train, validation and test users assigns every user to exactly one group with the requested (or ratio-derived, rounded down) group sizes, and rejects requests for more users than exist. Every distinct user-item pair is kept exactly once with its rating: train users keep all of theirs for learning, other users hold out exactly the promised number, the latest ones when a time column is given. All groups share one item list, rows match their user ids, the same seed gives the same split, and over the seeds every user can land in every group.",
 ["inputs","configurations"],"all logs, group sizes/ratios, holdout rules, rating and time columns, seeds",
 "The repository's tests for it need a download and fix one dataset; boundaries of sizes and the rating/time combinations are not reached.",
 ["src/irspack/split/userwise.py"],[("split_dataframe_partial_user_holdout","src/irspack/split/userwise.py"),("UserTrainTestInteractionPair","src/irspack/split/userwise.py")],["split_dataframe_partial_user_holdout"])
p("C10","Specified-interaction holdout never leaks a held-out interaction",
 "Given marked interactions, users having a marked interaction are divided into train, validation and test groups in the requested proportions and all other users go to training; validation and test users have exactly their marked interactions held out and all others available, and training users keep everything. No user is in two groups, no interaction is lost or invented, ratios summing above one are rejected, and over the seeds every such user can land in every group.",
 ["inputs","configurations"],"all logs, markings (boolean or positional), ratios and seeds",
 "Tests use one random log; ratio extremes and unmarked users are not covered.",
 ["src/irspack/split/specified.py"],[("holdout_specific_interactions","src/irspack/split/specified.py")],["holdout_specific_interactions"])
p("C11","Id-based recommendations are the true top items for the right user",
 "Converting a log to a matrix and recommending by ids never mixes up users or items: the matrix entry of a known user and item is the sum of their ratings (or their count) and unknown ids are dropped. A recommendation by ids returns at most the requested number of distinct items, in non-increasing score order, with the scores the model gave, such that no better eligible item is left out; eligible items are known, not seen by the user, within the allowed list and not forbidden. Single and batch calls obey the same rule, unknown users and duplicate ids are rejected, and caller-owned scores are not modified.",
 ["inputs","configurations"],"all id lists, logs, profiles, score tables, allowed/forbidden lists, cutoffs and thread counts",
 "Tests check a few random cases without ties, precision limits or cutoff edges.",
 ["src/irspack/utils/id_mapping.py","src/irspack/utils/__init__.py",U],[("ItemIDMapper/IDMapper","src/irspack/utils/id_mapping.py"),("df_to_sparse","src/irspack/utils/__init__.py"),("retrieve_recommend_from_score",U)],["IDMapper.recommend_for_known_user_id","ItemIDMapper.score_to_recommended_items_batch","df_to_sparse"])
p("C12","Early stopping ends at the best validated epoch",
 "Training an iterative model with validation evaluates it every given number of epochs, stops after the given number of consecutive validations without improvement or at the epoch limit, and leaves the model in the state of the first epoch that achieved the best validation score, reporting that epoch count as the learnt setting. Without validation it runs exactly the requested number of epochs. A second training starts afresh: nothing from an earlier training is restored or reported.",
 ["histories","inputs"],"all sequences of validation scores, epoch limits, validation periods, patience values and repeated trainings, with pruning at any point",
 "Tests run one or two score sequences; the property ranges over all histories.",
 ["src/irspack/recommenders/base_earlystop.py","src/irspack/recommenders/ials.py"],[("learn_with_optimizer","src/irspack/recommenders/base_earlystop.py"),("save_state/load_state","src/irspack/recommenders/base_earlystop.py")],["BaseRecommenderWithEarlyStopping.learn_with_optimizer"])
p("C13","Tuning returns the parameters and scores of the truly best trial",
 "Hyper-parameter tuning builds each trial's model from the suggested parameters overridden by the fixed ones, trains and scores it with the given evaluator and limits, and minimises the negated target metric. The returned parameters are those suggested and learnt in the best completed trial, without the fixed ones, and the returned table has one row per trial holding that trial's parameters, state and metrics. Pruned trials are recorded but never selected, the pruner leaves the configured number of start-up trials alone, no trial is begun after the time limit, equal tuning seeds suggest equally, and resuming a study extends it.",
 ["histories","configurations"],"all score/prune histories, fixed and suggested parameter sets, resumed studies",
 "Tests run a few short studies without pruning, resumption or parameter-name overlaps.",
 ["src/irspack/optimization/optimizer.py","src/irspack/recommenders/base.py"],[("Optimizer.objective_function / optimize_with_study","src/irspack/optimization/optimizer.py"),("tune","src/irspack/recommenders/base.py")],["BaseRecommender.tune","Optimizer.optimize_with_study"])
p("C14","Dimension-doubling search visits each dimension and returns the best",
 "The doubling search runs one study for the initial dimension and for each doubling up to and including the maximum, with the requested numbers of trials, each later study searching the previous best continuous parameters within the neighbourhood factor. It returns the parameters (with their dimension) of the best trial over all dimensions and the combined history labelled by dimension; ties are resolved without failing. Pruning in each study waits for its configured number of start-up trials, and searches with the same random seed suggest the same parameters.",
 ["histories","configurations"],"all score histories, dimension bounds and neighbourhood factors",
 "The only test needs a download and one score history; ties and bounds are not reached.",
 ["src/irspack/recommenders/ials.py"],[("tune_doubling_dimension","src/irspack/recommenders/ials.py")],["IALSRecommender.tune_doubling_dimension"])
p("C15","A dataset archive is either complete or absent after any download",
 "Opening a dataset downloads only when its archive is missing and the user agreed (or forced it); otherwise it never touches the network, and a refusal raises an error without writing anything. If a download fails or is interrupted at any point, no partial or incomplete archive is left at the destination, so a later attempt downloads again; a successful download stores exactly the served bytes, also when the same archive is being opened elsewhere at the same time. An existing archive is never overwritten or changed.",
 ["fault_sequences","crash_points","histories"],"all failure points of every request, crash points, prior file states and answers to the prompt",
 "Tests mock successful downloads only; no fault is injected.",
 ["src/irspack/dataset/downloader.py","src/irspack/dataset/neu_mf.py","src/irspack/dataset/amazon_music.py"],[("BaseDownloader","src/irspack/dataset/downloader.py"),("_save_to_zippath","src/irspack/dataset/*.py")],["SingleZipDownloader(...)","NeuMFML1MDownloader(...)","AmazonMusicDataManager(...)"])
p("C16","MIND archives are fetched safely, once, and with the right credentials",
 "The news-dataset manager fetches exactly the missing archives of the requested size from the requested source after consent, replaces the destination atomically and leaves no temporary or partial file behind on any failure; existing archives are kept as they are. An access token is sent only to the gated mirror: the explicit one first, then the two environment variables in order, and never to the other source. Refused access and disabled storage are reported with their own explanatory errors, other failures are passed on.",
 ["fault_sequences","crash_points","configurations"],"all subsets of existing archives, sources, sizes, token settings, HTTP errors and interruption points",
 "Tests replace the download by a mock, so the transfer protocol itself is never exercised under faults.",
 ["src/irspack/dataset/mind.py"],[("MINDDataManager.__init__/_download","src/irspack/dataset/mind.py")],["MINDDataManager(...)"])
p("C17","MIND logs and articles are read back faithfully",
 "Reading the behaviour log returns one row per impression with its exact fields and time; the long form lists every candidate once in order with its position, label and split, and the interactions are exactly the clicked candidates. Article metadata returns each article once (first occurrence wins across splits) with its exact text, whatever characters it contains, and entity lists parsed. Embeddings keep every value and id, and archives with nested or ambiguous members are located or rejected accordingly.",
 ["inputs"],"all logs and article texts (quotes, missing histories, repeated articles), archive layouts and splits",
 "Tests read one tiny clean fixture.",
 ["src/irspack/dataset/mind.py"],[("read_* methods","src/irspack/dataset/mind.py")],["MINDDataManager.read_interaction","MINDDataManager.read_item_info"])
p("C18","Dataset readers return every record of the source files exactly",
 "For each supported dataset, reading interactions, users, items and metadata returns one row per record of the documented file format with every field at its exact value, in order, and genres, time stamps and ids decoded as documented. The one-versus-many test lists mark the positive item and list each candidate once per user. Reading never executes content of the data files.",
 ["inputs"],"all well-formed file contents in each documented format",
 "Tests need downloads or one small fixture; encodings, separators in titles and edge lines are not sampled.",
 ["src/irspack/dataset/movielens/ML100K.py","src/irspack/dataset/movielens/ML1M.py","src/irspack/dataset/movielens/ML20M.py","src/irspack/dataset/neu_mf.py","src/irspack/dataset/citeulike.py","src/irspack/dataset/amazon_music.py"],[("read_* methods","src/irspack/dataset/")],["MovieLens1MDataManager.read_interaction","NeuMFML1MDownloader.read_train_test","..."])
p("C19","Neighbourhood models hold exactly the defined top-k similarities",
 "Item- and user-neighbourhood and random-walk models hold, for every pair, the documented similarity of the (optionally weighted) interaction data, keep exactly the given number of largest values of each row of the similarity matrix (for walks: of each column of the transition matrix), the entry of the item itself counted and ties going to the lower index. Neighbourhood models then drop the entry of the item or user itself, so nothing is recommended because of itself, and users are scored by the documented product. The result does not depend on the number of threads, and invalid settings are rejected.",
 ["inputs","configurations"],"all interaction matrices, similarity kinds, weights, shrinkage, neighbourhood sizes and thread counts",
 "Tests check a few random matrices against dense formulas, mostly without ties or truncation.",
 ["cpp_source/knn/similarities.hpp","cpp_source/knn/knn.hpp","src/irspack/recommenders/knn.py","src/irspack/recommenders/user_knn.py","src/irspack/recommenders/p3.py","src/irspack/recommenders/rp3.py"],[("similarity formulas","cpp_source/knn/similarities.hpp"),("top-k","cpp_source/knn/knn.hpp:compute_similarity_triple")],["CosineKNNRecommender.W","P3alphaRecommender.W","..."])
p("C20","Matrix utilities and linear models meet their definitions",
 "Row normalisation, TF-IDF and BM25 weighting, diagonal removal and the threaded sparse product return exactly what their definitions say and leave their inputs unchanged. The sparse linear model returns weights with zero diagonal that satisfy the optimality conditions of its elastic-net objective (non-negative when asked), and with a top-k limit keeps exactly the k largest weights of each column of the unlimited solution. The dense linear models return the closed-form solution with zero diagonal.",
 ["inputs","configurations"],"all matrices, regularisation settings, limits, iteration settings and thread counts",
 "Tests fit a few instances and never combine limits with several columns per worker.",
 [U,"src/irspack/utils/__init__.py","src/irspack/recommenders/slim.py","src/irspack/recommenders/dense_slim.py","src/irspack/recommenders/edlae.py"],[("SLIM",U),("weights",U),("l1_normalize_row","src/irspack/utils/__init__.py")],["SLIMRecommender.W","tf_idf_weight","sparse_mm_threaded"])
p("C21","Implicit-ALS training solves its stated problem and its state round-trips",
 "Each training epoch updates users then items to the minimiser of the documented loss given the other side (exactly for the direct solver, by the asked number of steps from the previous value for the iterative ones), so the loss, which is reported as documented, never increases; fitting an unseen user or item from interactions and features solves the same problem. Saving and restoring the training state reproduces every score, training is reproducible from the seed, and invalid settings are rejected.",
 ["inputs","configurations","histories"],"all interaction and feature matrices, loss and solver kinds, dimensions, seeds and save/restore points",
 "Tests compare one configuration per solver.",
 ["cpp_source/als/IALSTrainer.hpp","cpp_source/als/IALSLearningConfig.hpp","src/irspack/recommenders/ials.py"],[("Solver","cpp_source/als/IALSTrainer.hpp"),("IALSTrainer.save_state/load_state","src/irspack/recommenders/ials.py")],["IALSRecommender.learn","IALSRecommender.compute_user_embedding"])
p("C22","Every recommender honours the common scoring interface",
 "For every recommender, scores requested before training are refused; after training, scores for a set of users, for the same users as a block, and (for the item-similarity, popularity, SVD and VAE models) for the same users given as unseen histories agree; all have one row per user and one column per item, and an identical request repeats identically, also on a pickled copy. Training data given by the caller is never modified by building, training or scoring. Building from a configuration object is the same as building from its fields, every setting of the model other than data can be configured and defaults to the model's own default, a configuration of another model or an unknown field is rejected, and every model is found by its name. A model that wraps another library (truncated SVD, NMF, LightFM) scores as that library's model with the same settings.",
 ["inputs","histories","programs"],"all interaction matrices, call sequences, user subsets and recommender classes",
 "Tests exercise each class once on one matrix.",
 ["src/irspack/recommenders/base.py","src/irspack/recommenders/*.py"],[("BaseRecommender","src/irspack/recommenders/base.py"),("RecommenderMeta","src/irspack/recommenders/base.py")],["get_score","get_score_block","get_score_cold_user","from_config","get_recommender_class"])
p("C23","Native results do not depend on worker scheduling",
 "Every natively threaded computation processes each row, column or user exactly once whatever the number of workers and their interleaving: results with any thread count, including more workers than rows, equal the single-worker result (sums combined from several workers up to floating-point rounding), no memory is shared between workers without synchronisation, and a thread count of zero is rejected.",
 ["schedules"],"all interleavings of any number of workers over the shared cursor or static partition",
 "Tests run one thread count; a lost or doubled row needs a particular remainder or interleaving.",
 [EC,U,"cpp_source/knn/knn.hpp","cpp_source/als/IALSTrainer.hpp"],[("fetch_add cursors",U+", "+EC+", cpp_source/als/IALSTrainer.hpp"),("static partition","cpp_source/knn/knn.hpp:compute_similarity")],["all n_threads parameters"])
p("C24","Tuning ranges and thread settings are interpreted exactly",
 "A parameter range suggests only values inside its bounds (inclusive), on its step, scale and type, under its name with the given prefix, and rejects invalid names and reversed bounds; fixed parameters are left out of a model's default suggestions while all others are suggested, and a model can be built, trained and scored with every combination its default ranges suggest. The thread count is the explicit argument if given, else the environment setting, else the number of processors, and an unreadable setting is rejected.",
 ["inputs","configurations"],"all names, bounds, steps, prefixes, fixed-parameter sets and environment values",
 "Tests sample one value per range class.",
 ["src/irspack/optimization/parameter_range.py","src/irspack/_threading.py","src/irspack/recommenders/base.py"],[("ParameterRange.suggest","src/irspack/optimization/parameter_range.py"),("get_n_threads","src/irspack/_threading.py"),("default_suggest_parameter","src/irspack/recommenders/base.py")],["UniformIntegerRange.suggest","get_n_threads"])
p("C25","Pairs of learning and held-out interactions stay aligned",
 "The container of users' learning and held-out interactions refuses user ids, matrices or item ids of inconsistent sizes; otherwise it holds exactly the given ids and interactions, an absent held-out part being empty and the total being the sum of both parts. Concatenating two containers lists the users of the first and then of the second with every interaction at its user and item, and is refused for unequal item counts. The table views name every stored interaction once with its user, item and rating and are refused without item ids. No operation changes its arguments or earlier containers.",
 ["inputs","histories"],"all matrices (any sparse format, order of entries, stored zeros), id lists and sequences of constructions, concatenations and views",
 "Tests build two containers of fixed shapes and concatenate them once.",
 ["src/irspack/split/userwise.py"],[("UserTrainTestInteractionPair","src/irspack/split/userwise.py")],["UserTrainTestInteractionPair","UserTrainTestInteractionPair.concat","df_train","df_test"])
p("C26","Feature-aware iALS learns from profiles as priors and scores newcomers by them",
 "With user or item features, each epoch after the warm-up draws every user (then item) towards the value its features predict, by solving the documented system, and then refits that side's feature map by ridge regression weighted like the regularization; during the warm-up epochs and on a side without features the model is exactly the ordinary one, and maps start at zero. New users and items, given by interactions, features or both, get the solution of the same system against the current factors, and their scores are its products, known items first, then new ones in the order of their features; sparse and dense features mean the same. Saving, restoring and pickling keep factors and maps together, questions change nothing, given features are never modified, the reported loss is the documented objective, features asked about on a side trained without them are refused, and evaluating with new items ranks exactly those scores.",
 ["histories","inputs","configurations"],"all sequences of epochs, snapshots, copies and questions; all features (dense, sparse, one-hot), interactions, warm-ups and solver settings",
 "Tests train on one fixed matrix and mostly check shapes and finiteness; the order of the four updates, the warm-up boundary and each question's use of the right versions need histories.",
 ["src/irspack/recommenders/ials.py","cpp_source/als/IALSTrainer.hpp"],[("step","cpp_source/als/IALSTrainer.hpp:775-808"),("update_feature_weight","cpp_source/als/IALSTrainer.hpp:1093"),("get_score_cold_user_with_item_features","src/irspack/recommenders/ials.py:521")],["IALSRecommender.learn","compute_user_embedding","compute_item_embedding_from_features","get_score_cold_user_with_item_features"])
out = Path(__file__).resolve().parent.parent / "properties.jsonl"
for x in P:
    assert len(x["title"]) <= 80, x["title"]
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
