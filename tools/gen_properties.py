"""Writes properties.jsonl (kept as a script only so the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

D = "src/irspack/dataset/"
prop("C01", "A failed or interrupted dataset download never passes for a complete one",
 "Whatever goes wrong while a dataset archive is being fetched (connection refused or dropped, HTTP error, truncated or non-archive body, full disk, interrupt, process killed), the requested archive path afterwards either does not exist or holds the complete archive, and already present archives are untouched. "
 "A later attempt with a working network therefore succeeds and reads the complete data. A failure that is reported to the caller leaves no stray partial file next to the archive.",
 ["crash_points", "fault_sequences"], "every dataset manager x every fault kind x every point (request, body chunk, I/O call) at which it can strike",
 "The dataset tests place ready-made archives or mock the whole download; no test injects a single failure.",
 [D+"downloader.py", D+"neu_mf.py", D+"amazon_music.py", D+"mind.py"],
 [("download into place", D+"downloader.py"), ("temporary file + rename", D+"mind.py"), ("multi-part archive assembly", D+"neu_mf.py, "+D+"amazon_music.py")],
 ["file system contents after the fault", "result of a second construction"])
prop("C02", "Downloads happen only with consent, only for missing archives, token only to HF",
 "A dataset manager contacts the network only when an archive is missing and the user has consented (forced download or answering y); otherwise it raises an error and neither fetches nor writes anything, and an existing archive is used as is without prompt or network. "
 "Exactly the missing archives are fetched, each from its documented location for the selected size and source. A Hugging Face access token (argument first, then the two environment variables in order) is sent to the Hugging Face host only, never to another host, source or redirect target.",
 ["configurations", "histories"], "all combinations of manager, archive presence, answer, force flag, size, source, token placement and redirect target",
 "Tests cover one forced download through a mock and never the prompt, the refusals, the Azure source, the token lookup or redirects.",
 [D+"downloader.py", D+"mind.py", D+"neu_mf.py", D+"amazon_music.py"],
 [("consent prompt", D+"downloader.py, "+D+"mind.py"), ("token lookup and request headers", D+"mind.py")],
 ["requests (host, path, headers) reaching the network", "file system", "prompts"])
prop("C03", "MIND logs, articles and embeddings are read without losing or altering records",
 "Reading a MIND archive returns one behaviour row per log line and one impression row per listed candidate, in log order, with its impression, user, timestamp, position within the impression, click label and split; interactions are exactly the clicked candidates, and history is never expanded. "
 "Article metadata has one row per distinct article (first occurrence wins across splits) with its fields exactly as stored and entity fields decoded, and embeddings keep every vector under its id. Quote characters, dashes inside ids and nested archive folders do not change this; asking for an unknown split is an error.",
 ["inputs"], "all archives over a bounded alphabet of lines, candidates, labels, timestamps, ids and text fields, for every split argument",
 "One two-line fixture archive per split is tested; label/position/duplicate/quoting combinations are not.",
 [D+"mind.py"], [("impression explosion", D+"mind.py"), ("article dedupe", D+"mind.py"), ("member lookup", D+"mind.py")])
prop("C04", "Public-dataset readers return every record once and never execute file content",
 "The MovieLens 100K/1M/20M, NeuMF, CiteULike and Amazon Music readers return exactly one row per record of the archive, in file order, with ids, ratings, labels and timestamps (seconds since the epoch) equal to the file's; item, user and genre tables describe exactly the stored attributes under the documented columns and index. "
 "In the NeuMF test set the held-out pair of each line is positive, the listed negatives are negative and no user-item pair occurs twice. Archive content is only ever treated as data, never evaluated as code.",
 ["inputs"], "all small archives over bounded alphabets of records, for every reader",
 "Each reader is tested on one two- or three-record archive at most; CiteULike and Amazon have no test.",
 [D+"movielens/ML100K.py", D+"movielens/ML1M.py", D+"movielens/ML20M.py", D+"neu_mf.py", D+"citeulike.py", D+"amazon_music.py"],
 [("column selection and time conversion", D+"movielens/ML1M.py"), ("genre expansion", D+"movielens/ML100K.py"), ("negative list parsing", D+"neu_mf.py"), ("metadata parsing", D+"amazon_music.py")])
O = "src/irspack/optimization/"
R = "src/irspack/recommenders/"
prop("C05", "Tuning returns the parameters of the best completed trial",
 "For every history of completed, pruned and (tolerated) failed trials, tuning returns the suggested plus learnt parameters of the completed trial with the best validation target metric (earliest on ties), and constructing the recommender from them together with the fixed parameters reproduces that trial's model and score. "
 "Fixed parameters always reach every trial unchanged, override a suggestion of the same name, are not tuned and are not part of the result; exactly the requested number of trials is run with the training data that was given or suggested.",
 ["histories", "configurations"], "all trial-outcome histories up to a length, over metric values with ties, learnt parameters, overlapping fixed/suggested parameters and resumed studies",
 "Optimizer tests run a couple of fixed histories with a mock and need the MovieLens download, so they do not run here at all.",
 [O+"optimizer.py", R+"base.py"], [("objective and best-trial merge", O+"optimizer.py"), ("fixed parameter handling", R+"base.py")])
prop("C06", "The tuning history lists every trial with its own parameters and scores",
 "The history table returned by tuning has exactly one row per trial of the study, whatever its state, indexed by trial number, with that trial's suggested parameters, learnt parameters, value and state, and every metric of its evaluation at the evaluator's cutoff. "
 "Resuming a study, or several workers adding trials to the same study concurrently, never loses, duplicates or swaps a trial's scores.",
 ["histories", "schedules"], "all histories up to a length, all split points of a resumed study, and all interleavings of two concurrent workers' accesses to the study",
 "Tests check one sequential study; concurrent access to the shared study record is never exercised.",
 [O+"optimizer.py"], [("score recording", O+"optimizer.py"), ("history table", O+"optimizer.py")])
prop("C07", "Early stopping keeps exactly the best validated epoch",
 "Training with a validation evaluator validates after every fixed number of epochs, stops exactly when the configured number of consecutive non-improving validations is reached or at the epoch limit, and leaves the model in the state it had at the first epoch attaining the best validation score, reporting that epoch count as the learnt number of epochs. "
 "Each intermediate score after which training goes on is reported once, at its epoch, to the trial, and a pruning decision aborts the trial at that point. Without an evaluator exactly the configured number of epochs is run; retraining for the learnt number of epochs reproduces the tuned model.",
 ["histories", "configurations"], "all validation score sequences over a small ordered alphabet up to a length x epoch limit x validation period x patience x pruning point",
 "The tests use one or two hand-written score sequences.",
 [R+"base_earlystop.py"], [("epoch loop, best state, patience, pruning", R+"base_earlystop.py")])
prop("C08", "Search-space definitions are validated and suggestions stay inside them",
 "A parameter range accepts exactly the documented names and ordered bounds and rejects everything else with an error, in time proportional to the name. "
 "Every suggestion carries the parameter's own (optionally prefixed) name and lies within the declared bounds, step, scale and choices; a recommender's default suggestion covers each tunable parameter exactly once, skips fixed ones, and only produces values its constructor accepts.",
 ["inputs", "configurations"], "all names over a bounded alphabet and length, all bound/step pairs in a grid, all subsets of fixed parameters, extreme values of every range",
 "Only two invalid names are tested.",
 [O+"parameter_range.py", R+"base.py"], [("name check", O+"parameter_range.py"), ("range classes", O+"parameter_range.py"), ("default tune ranges", R+"*.py")])
prop("C09", "Dimension-doubling search carries forward the right winners and returns the best",
 "The dimension-doubling search of the matrix-factorization recommender tries the dimensions initial, 2x, 4x, ... not exceeding the maximum, gives each the documented number of trials, searches each larger dimension around the best parameters of the preceding one, and returns the parameters of the overall best completed trial (the earliest one, hence the smallest dimension, on ties) including its dimension. "
 "This holds for every assignment of scores to trials, including ties, and for pruned trials.",
 ["histories", "configurations"], "all score assignments over a small alphabet (with ties and pruned trials) x initial and maximal dimension x trial counts",
 "One randomly scored run is tested.",
 [R+"ials.py"], [("doubling loop and winner selection", R+"ials.py")])
S = "src/irspack/split/"
U = "src/irspack/utils/"
prop("C10", "A row-wise split partitions every row and sums back to the original matrix",
 "Splitting an interaction matrix row by row puts every stored entry, with its exact value, into exactly one of the two parts, so that the parts have the original shape and sum back to the original; the number of held-out entries per row is exactly floor (or ceil) of ratio times the row's count, or min(count, n) for a fixed n. "
 "The input is not modified, equal random states give equal splits, and a ratio outside [0, 1] is rejected.",
 ["inputs", "configurations"], "all small sparse matrices over an alphabet of values and dtypes x ratios x fixed n x rounding mode x seeds",
 "Three random integer-valued matrices are tested.",
 [U+"__init__.py", "cpp_source/util.hpp"], [("row shuffle and triplet assembly", "cpp_source/util.hpp"), ("seed and dtype handling", U+"__init__.py")])
prop("C11", "The user-holdout split assigns users and interactions without loss or leakage",
 "Splitting an event log by users places every user in exactly one of the train, validation and test sets, with the requested number (or rounded-down ratio) of validation and test users, and rejects requests for more users than exist. "
 "Each user's distinct interactions (a repeated user-item pair counts once, as in its first row) appear with their ratings, under the right user and item id, exactly once: all of them visible for train users, and split into visible and held-out parts of the requested sizes for validation and test users, the held-out ones being the most recent when a time column is given.",
 ["inputs", "configurations"], "all small event logs x user counts and ratios x held-out counts and ratios x time/rating columns x id types x seeds",
 "One MovieLens split with default-like arguments is tested, and only with a download.",
 [S+"userwise.py", U+"__init__.py"], [("user partition", S+"userwise.py"), ("held-out selection", S+"userwise.py")])
prop("C12", "The last-n split holds out each user's most recent interactions, no leakage",
 "Splitting an event log by time returns two parts that together contain every row of the log exactly once, unchanged, such that for every user no held-out row is older than a kept one and exactly min(n, count), or floor/ceil of ratio times count, rows are held out. The log itself is not modified.",
 ["inputs", "configurations"], "all small logs over bounded users, timestamps with ties, arbitrary indexes x n x ratio x rounding mode",
 "Random logs with distinct times and one setting each are tested.",
 [S+"time.py"], [("per-user rank", S+"time.py")])
prop("C13", "Holding out specified interactions exposes them only as validation/test targets",
 "When specific interactions are held out, every user is placed in exactly one of train, validation and test; users without a specified interaction are always in train; the validation and test shares of the remaining users match the requested ratios up to rounding train and validation users down. "
 "For validation and test users precisely the specified interactions are the targets and all others are visible; train users keep all their interactions; all parts share one aligned item list. Ratios exceeding one in total are rejected.",
 ["inputs", "configurations"], "all small logs x all indicator subsets x ratio pairs x seeds, boolean and index indicators",
 "A handful of random logs with default-like ratios are tested.",
 [S+"specified.py"], [("user partition and flag split", S+"specified.py")])
prop("C14", "Event logs, matrices and id lists convert into each other without loss",
 "Converting an event log to a matrix puts each row's rating (or one), summed over repeated pairs, at the position of its user and item id, with row and column ids returned in matching order; given id lists fix rows and columns exactly, in order, and rows with other ids are dropped. "
 "A user/item interaction pair returns the same interactions as data frames under the right ids, its parts add up, concatenation stacks users without mixing their data, and inconsistent shapes are rejected.",
 ["inputs", "configurations"], "all small logs over bounded ids of several types x id-list choices x ratings incl. zero and fractional",
 "One fixed log is tested.",
 [U+"__init__.py", S+"userwise.py"], [("categorical codes", U+"__init__.py"), ("interaction pair", S+"userwise.py")])
prop("C15", "ID-based recommendation returns the top allowed unseen items in score order",
 "For any scores, recommending by id returns at most the requested number of distinct known items in non-increasing score order, each with its own score, never an item that is forbidden, outside the allowed list, already seen by the user, or scored minus infinity, and never omitting an eligible item that scores higher than a returned one or fits under the cutoff. "
 "Batch calls agree with single-user calls user by user for any number of threads, unknown ids are ignored in profiles and lists but rejected as users, duplicate id lists are rejected, and caller-owned arrays, lists and the model's own state are not modified.",
 ["inputs", "configurations", "schedules"], "all score arrays over a small alphabet with ties, infinities and close values x allowed/forbidden/cutoff/profile choices x float types x thread counts",
 "A few random score arrays are tested with at most one restriction each.",
 [U+"id_mapping.py", "cpp_source/util.hpp"], [("single-user ranking", U+"id_mapping.py"), ("batch retrieval", "cpp_source/util.hpp")])
E = "src/irspack/evaluation/"
prop("C16", "Ranking metrics equal their textbook definitions",
 "For every score matrix, ground truth and cutoff, the reported hit, recall, ndcg, map, precision, entropy, gini index, number and share of appeared items and user counts equal the textbook definitions applied to each user's top-cutoff items, ties broken by item order, items scored minus infinity and masked items never recommended, and users without ground truth not counted as valid. "
 "Restricting the recommendable items, globally or per user, gives the metrics of the ranking and ground truth within that subset; the recall-with-cutoff option changes only the recall denominator.",
 ["inputs", "configurations"], "all ground truths and score matrices over a small alphabet incl. ties and -inf x cutoffs x restrictions x masks x options x float types",
 "Tests compare random matrices against scikit-learn for ndcg/recall only; ties, -inf, restrictions and the diversity metrics are barely reached.",
 ["cpp_source/evaluator.cpp", E+"evaluator.py"], [("per-user update and aggregation", "cpp_source/evaluator.cpp"), ("masking and coverage", E+"evaluator.py")])
prop("C17", "Evaluation does not depend on chunking, threads, storage or call route",
 "For a given model and evaluator the metrics are the same whatever the chunk size, the number of threads, the float type (when exactly representable), memory layout, order and number of cutoffs, and whether they are computed from the model, from the score matrix or from streamed row blocks of any sizes; an offset evaluator equals evaluating the corresponding rows. "
 "Evaluation leaves the model, the caller's arrays and the ground truth unmodified, and wrong shapes, row counts, types or cutoffs are rejected instead of producing numbers.",
 ["configurations", "inputs"], "all row partitions into blocks x chunk sizes x thread counts x layouts x routes for a family of models",
 "Tests use one chunking and compare one streamed partition.",
 [E+"evaluator.py", "cpp_source/evaluator.cpp"], [("chunk loop and offset arithmetic", E+"evaluator.py"), ("metric merge", "cpp_source/evaluator.cpp")])
prop("C18", "Cold-user evaluation scores held-out items from each user's own history",
 "Evaluating cold users equals computing the model's scores from each user's input history, excluding the user's masked (by default, input) items, and measuring the metrics against that user's ground truth, for any chunk size. "
 "With cold-item features the extra columns follow the training items; models that can score them are evaluated on all columns and other models leave them unscoreable; inconsistent shapes are rejected and inputs are not modified.",
 ["inputs", "configurations"], "all small histories x ground truths x masks x cold-item counts x chunk sizes x models with and without feature support",
 "One example with features and a few random ones are tested.",
 [E+"evaluator.py"], [("cold-user loop, padding and mask", E+"evaluator.py")])
prop("C19", "Evaluating recommendation tables equals evaluating the lists they contain",
 "Evaluating a recommendation table against a ground-truth table gives the textbook metrics of each common user's recommendation list in row order, averaged over the users present in both tables, for any id types, column names, row interleaving between users, index and thread count. The input tables are not modified.",
 ["inputs", "configurations"], "all small table pairs over bounded users/items x column names x id types x row orders x thread counts",
 "One random example with identifier-like column names is tested.",
 [E+"evaluate_df_to_df.py", "cpp_source/evaluator.cpp"], [("row grouping", E+"evaluate_df_to_df.py"), ("list metrics", "cpp_source/evaluator.cpp")])
prop("C20", "All scoring routes of a fitted recommender agree",
 "For every recommender, scores for user indices, for a user block and, for models that score from the history alone (popularity, item similarity, SVD), for the same history presented as a cold user agree with each other, row by row, for any subset, order or repetition of users and any storage format of the data (explicitly stored zeros are not interactions); the seen-removing variants differ from them exactly by minus infinity at the interacted items. "
 "Scoring is repeatable and never modifies the model, the training data or the arguments, learning is reproducible for a fixed seed, and a recommender that has not been fitted refuses to score.",
 ["histories", "configurations", "inputs"], "all recommender classes x all index selections/blocks of small matrices x all short sequences of scoring calls",
 "Tests exercise one call of each kind on one matrix and check shapes mostly.",
 [R+"base.py", R+"knn.py", R+"user_knn.py", R+"slim.py", R+"truncsvd.py", R+"nmf.py", R+"ials.py", R+"toppop.py", R+"dense_slim.py", R+"edlae.py"],
 [("score variants", R+"base.py")])
prop("C21", "Neighbourhood similarities match their formulas and keep the true top-k",
 "Item- and user-based nearest-neighbour models compute the documented (asymmetric) cosine, Jaccard or Tversky similarity with shrinkage, after the chosen TF-IDF or BM25 weighting, select for every item or user (each row of the similarity matrix) exactly its top-k largest similarities among co-occurring items or users, itself included and ties going to the smaller index, store nothing else, then exclude self-similarity, and score users by the weighted sum over their neighbours. "
 "The result is the same for any number of threads.",
 ["inputs", "configurations"], "all small binary/weighted matrices x similarity kinds x shrinkage x normalization/weighting x top_k x thread counts",
 "Random matrices against dense formulas for a few settings; top-k with ties in one case.",
 ["cpp_source/knn/knn.hpp", "cpp_source/knn/similarities.hpp", R+"knn.py", R+"user_knn.py", "cpp_source/util.hpp"],
 [("similarity kernels and top-k", "cpp_source/knn/knn.hpp"), ("weighting", R+"knn.py")])
prop("C22", "Graph random-walk models match their transition formulas",
 "P3alpha and RP3beta weights equal the documented three-step walk (transition probabilities raised to alpha, item popularity discounted by beta), truncated to the top-k of each column of the weight matrix and row-normalized when requested, for every interaction matrix including empty rows and columns, and for any thread count.",
 ["inputs", "configurations"], "all small matrices x alpha x beta x top_k x normalization x thread counts",
 "One random matrix each is tested.",
 ["cpp_source/knn/similarities.hpp", R+"p3.py", R+"rp3.py"], [("random-walk kernels", "cpp_source/knn/similarities.hpp")])
prop("C23", "Factorization training solves the weighted least-squares problem it states",
 "Each alternating step of the implicit matrix-factorization model returns, for every user and item, the exact minimizer of the stated weighted and regularized objective given the other side (direct solver), its conjugate-gradient and subspace solvers approach the same minimizer and never increase the objective, and the reported loss equals that objective. "
 "Fold-in of a history equals the same minimizer with the item factors fixed, rows with no interactions included, for both loss variants and frequency-dependent regularization, and training is deterministic for a seed.",
 ["inputs", "configurations"], "all small interaction matrices x solver x loss variant x hyper-parameter grid x epochs x thread counts",
 "A few random matrices are tested with one or two hyper-parameter settings.",
 ["cpp_source/als/IALSTrainer.hpp", R+"ials.py"], [("normal equations and solvers", "cpp_source/als/IALSTrainer.hpp"), ("parameter conversion", R+"ials.py")])
prop("C24", "Feature-aware factorization optimizes and applies the stated feature model",
 "With user or item features each step minimizes the stated objective in which factors are regularized towards their feature projections and the projections are ridge-regressed, with dense and sparse features giving the same result; all-zero features or no features reduce to the plain model. "
 "Scores for feature-only users and items, hybrid history-plus-feature users and extended item lists follow from the learnt factors and projections, and inconsistent feature shapes or missing features are rejected.",
 ["inputs", "configurations"], "all small interaction/feature matrices x penalties x warm-up x solver x dense/sparse",
 "Two synthetic examples are tested.",
 ["cpp_source/als/IALSTrainer.hpp", R+"ials.py"], [("feature regression and prior", "cpp_source/als/IALSTrainer.hpp"), ("feature API", R+"ials.py")])
prop("C25", "Linear item models are optimal for their objective with zero self-weight",
 "The sparse linear model returns the minimizer of its elastic-net objective per item (non-negative when requested) with zero diagonal, its top-k option keeps exactly the k largest coefficients of each column and changes nothing else, and the closed-form dense models equal their documented formulas with zero diagonal. "
 "Item columns are independent: results do not depend on threads or block boundaries.",
 ["inputs", "configurations"], "all small matrices x regularization grid x sign constraint x top_k x column counts around the block size x thread counts",
 "Compared with scikit-learn on a couple of random matrices; top-k on one.",
 ["cpp_source/util.hpp", R+"slim.py", R+"dense_slim.py", R+"edlae.py"], [("coordinate descent and top-k", "cpp_source/util.hpp"), ("closed forms", R+"dense_slim.py, "+R+"edlae.py")])
prop("C26", "Parallel kernels give the sequential answer under any schedule or spawn failure",
 "Every multi-threaded computation (similarities, sparse products, linear models, factorization steps and fold-in, recommendation retrieval, metric evaluation) returns the single-threaded result for every number of threads and every interleaving of its workers, without data races, deadlock or lost rows. "
 "If the system cannot start a worker the call either still returns the complete result or raises an error; it never returns incomplete results silently.",
 ["schedules", "fault_sequences"], "all interleavings of 2-3 workers at their synchronization points on inputs larger than a work chunk, and a spawn failure at every worker",
 "Tests run with real threads on one uncontrolled schedule and never inject a failure.",
 ["cpp_source/util.hpp", "cpp_source/evaluator.cpp", "cpp_source/knn/knn.hpp", "cpp_source/als/IALSTrainer.hpp"],
 [("work cursor and worker joins", "cpp_source/util.hpp, cpp_source/evaluator.cpp, cpp_source/knn/knn.hpp, cpp_source/als/IALSTrainer.hpp")])
prop("C27", "Saved models, evaluators and configurations come back equivalent",
 "A fitted recommender or an evaluator that is pickled and restored gives the same scores, embeddings and metrics as the original in every later use, and so does a restored training state at any epoch when training continues from it as the format allows. "
 "Building a recommender from its configuration object equals calling its constructor with the same values, defaults included, unknown options are rejected, and every recommender can be found by its name.",
 ["histories", "configurations"], "all recommender classes x all save/restore points of short operation sequences x configuration fields",
 "One pickle round trip per recommender is tested right after learning.",
 [R+"base.py", R+"base_earlystop.py", R+"ials.py", "cpp_source/als/wrapper.cpp", "cpp_source/evaluator.cpp"],
 [("state (de)serialization", "cpp_source/als/wrapper.cpp, cpp_source/evaluator.cpp"), ("configuration registry", R+"base.py")])
prop("C28", "Sparse-matrix utilities match their definitions and leave inputs alone",
 "TF-IDF and BM25 weighting, row normalization, diagonal removal and threaded sparse multiplication equal their textbook definitions for every matrix, keep the sparsity structure they promise, and do not modify their inputs; invalid shapes and thread counts are rejected. "
 "The number of worker threads is the explicit argument if given, otherwise the environment default, otherwise the CPU count, and an unusable environment value is an error.",
 ["inputs", "configurations"], "all small matrices over a value alphabet x parameters x thread counts x environment values",
 "Random matrices with default parameters are tested for two of the functions.",
 ["cpp_source/util.hpp", U+"__init__.py", "src/irspack/_threading.py"], [("weighting and product kernels", "cpp_source/util.hpp"), ("thread count", "src/irspack/_threading.py")])
prop("C29", "Popularity, SVD, NMF, BPR-FM and Mult-VAE models learn and score as documented",
 "The popularity model scores every item with its total training interactions, for every user alike; the truncated-SVD model scores with the best approximation of the training matrix of the requested rank (at most one below the number of items); the NMF model with scikit-learn's factors for the given options; the LightFM wrapper creates LightFM with the given options, makes exactly one pass over the unmodified training matrix per epoch and scores by embedding products plus item bias. "
 "The variational autoencoder trains, in every epoch, on each user exactly once in minibatches of the given size, with fresh noise per update, a KL weight growing linearly from zero to its goal at the configured epoch, and Adam steps on the documented objective; it scores any number of histories by the noise-free decoder output, each history independently of the others and of minibatch borders. Training is reproducible and not influenced by scoring in between.",
 ["inputs", "configurations", "histories"], "all small matrices x ranks and options; all user counts and minibatch sizes in a range x annealing lengths x dropout x epochs; all numbers of scored histories across minibatch borders",
 "The models are trained once on one matrix and only the shape or finiteness of scores is tested; Mult-VAE is not tested at all.",
 [R+"toppop.py", R+"truncsvd.py", R+"nmf.py", R+"bpr.py", R+"multvae.py"],
 [("popularity", R+"toppop.py"), ("decompositions", R+"truncsvd.py, "+R+"nmf.py"), ("LightFM wrapper", R+"bpr.py"), ("objective, minibatches and annealing", R+"multvae.py")])
prop("C30", "Random choices come from the given seed or random state alone",
 "Every randomized operation (row-wise split, user hold-out split, hold-out of specified interactions, sample-data generation, seeded tuning and model training) gives the same result for the same input and seed however often and in whatever order operations are called, whatever the state of the global random generators, and in every Python process, for ids of any type; it does not change NumPy's global generator. "
 "An integer seed equals a fresh RandomState with that seed; a RandomState passed in is drawn from and advances, equal states giving equal results; different seeds can give different results, and other random-state values are rejected. Sample data are 0/1 matrices of the requested shape and density.",
 ["histories", "inputs", "configurations"], "all sequences of randomized calls up to a length, interleaved with disturbances of the global generators; all sequences sharing a random state; all operations in processes with different hash seeds",
 "Tests call each function once or twice with a fixed seed in one process.",
 [U+"random.py", U+"__init__.py", U+"sample_data.py", "src/irspack/split/userwise.py", "src/irspack/split/specified.py", R+"base.py", R+"ials.py"],
 [("random-state conversion", U+"random.py"), ("splits", "src/irspack/split/userwise.py, src/irspack/split/specified.py, "+U+"__init__.py"), ("sample data", U+"sample_data.py"), ("seeded tuning", R+"base.py, "+R+"ials.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
