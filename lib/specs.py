SPECS = {}
def S(pid, parts, **kw):
    SPECS[pid] = dict(parts=parts, **kw)
def cpp(src, shim=False, name=None, **kw): return dict(kind="cpp", src=src, shim=shim, name=name or src.split(".")[0], **kw)
def py(src, name=None, **kw): return dict(kind="py", src=src, name=name or src.split(".")[0], **kw)
def R(src, name=None, **kw): return dict(kind="R", src=src, name=name or src.split(".")[0], **kw)
ASAN = ("-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer")
PLAIN = ("-O1",)
S("C01", [cpp("c01.cpp", flags=PLAIN), cpp("c01.cpp", name="c01asan", flags=ASAN + ("-DSHALLOW=2",))], bounds="edit histories of length <=6 (quick) / 7-9 (thorough); trees of <=4 leaves; output dimension 1,2,3; forests of two trees under histories of <=5 / 6 edits, resets, clones and copies", min_runs=1000, min_states=100)
S("C02", [cpp("c02.cpp", flags=PLAIN), cpp("c02.cpp", name="c02asan", flags=ASAN, args=["--only", "scalar-missing,fine-values", "--prefix", "asan:"], quick_only=True)], bounds="all trees of <=3 (quick) / <=4 (thorough) splits from 7 split rules, plus all grow/prune histories of length 4/5; 48-288 row covariate grids incl. missing values, direct floating-point neighbours of thresholds and category codes up to 2^32-1 (single-value routing also under address sanitizer); output dimension 1,2; all split predicates on a value grid incl. infinities and NaN", min_runs=1000, min_states=100)
S("C03", [cpp("c03.cpp", flags=PLAIN), cpp("c03.cpp", name="c03asan", flags=ASAN + ("-DSHALLOW=1",))], bounds="all histories of 4-5 (quick) / 5-7 (thorough) splits, prunes (of any internal node) and resets on one or two tracked trees, 4 observations, 4 tables (ties, distinct, constant, missing) x 5 rules; presorted growth on all 3^4 / 4^4 numeric columns x 3 categorical columns; 37, 150 and 1300 observations on 5 features of mixed kind under three trees, all histories of 5 (quick) / 6 (thorough) of 5-8 operations, presorted or not", min_runs=1000, min_states=100)
S("C04", [cpp("c04.cpp", flags=PLAIN), cpp("c04.cpp", name="c04asan", flags=ASAN, args=["--only", "candidates-large", "--prefix", "asan:"], quick_only=True)], bounds="all columns of <=6 (quick) / <=8 (thorough) observations over 3 values (numeric) or 4 codes (unordered) or 4 codes, fractional or negative values (ordered) at the root and at both children of a split, all grid sizes; up to 40/60 observations for thinned grids, 70 and 140 observations with up to 139 cutpoints or categories; candidate likelihoods for 3 leaf models, weights, min leaf 1-2 (large ones also under address sanitizer)", min_runs=1000, min_states=100)
S("C05", [cpp("c05.cpp", shim=True, flags=("-O2",))], bounds="4 observations, all outcome vectors over 2 (quick) / 3 (thorough) values, 4 bases, 3 weightings, 2x2 variances, 3 leaf models (dimension 1-3), all <=2-edit grow/prune histories; all sufficient-statistic histories of length 4/5; exact normal draws recovered by driving the generator with zero and unit vectors; 33 and 230 observations, leaves of dimension 1-4, dense prior covariances, outcome scales 1e-3 to 700, bases with and without offset, uneven weights, all 2/3-edit histories", min_runs=1000, min_states=100)
S("C06", [cpp("c06.cpp", shim=True, flags=("-O2",)), cpp("c06.cpp", name="c06asan", shim=True, flags=ASAN, args=["--only", "large-many-trees", "--prefix", "asan:"], quick_only=True)], bounds="5 observations x 3 variables (ties, negatives, constant columns), 4 tables x 3 weightings x 3 leaf models x case weights x 2 tree priors x min leaf 1-3 x 2 outcomes; every history of 2 (quick) / 3 (thorough) MCMC iterations of one tree and 1/2 of two trees; at each state every proposal (all leaves, variables, distinct cutpoints, prunes) with the acceptance draw just below and just above the exact ratio; 41 observations on tables of two scales with 1 and 5 trees, every proposal audited at each state of histories of 0-2 iterations (5 trees also under address sanitizer); 14 observations, every proposal audited at trees of 3-7 levels (thorough 9) leaning left, right and zigzag", min_runs=100, min_states=100)
S("C07", [cpp("c07.cpp", shim=True, flags=("-O2",)), cpp("c07.cpp", name="c07asan", shim=True, flags=ASAN, args=["--only", "to-the-bottom", "--prefix", "asan:"], quick_only=True)], bounds="6 observations x numeric, ordered and unordered columns; 3 tables x 3 variable weightings x 3 leaf models x 2 tree priors x min leaf 1-3 x 2 outcomes/case weights x grid sizes 1-4, 6, 100; every sequence of the first 2 (quick) / 3-4 (thorough) split decisions and, on 36 configurations, sequences of up to 11 decisions over three options each (to the bottom of the tree; these also under address sanitizer), every option of every decision executed; first and second iteration, one and two trees; 43 and 90 observations with up to 26 categories, grids of 9 and 120, every option of the first 2/3 decisions along three options each", min_runs=100, min_states=100)
S("C08", [cpp("c08.cpp", shim=True, flags=("-O2",)), cpp("c08.cpp", name="c08asan", shim=True, flags=ASAN, args=["--only", "two-forests-large", "--prefix", "asan:"], quick_only=True)], bounds="every history of 2 (quick) / 3 (thorough) steps from {MCMC iteration, grow-from-root iteration, whole-forest residual add/subtract}, the first 3-5 random choices of each iteration enumerated; 6 observations, 2 mixed-type tables, 3 leaf models, case weights, 1-3 trees, initialised or fresh forests, one forest or two sharing a residual; 47 observations and 12 trees, one forest or two, histories of 3/4 steps with one enumerated choice each (two forests also under address sanitizer); 1200 observations or 140 trees, histories of 2 steps; scripted chains of 45/150 steps in 4 patterns; leaf values drawn exactly zero, histories of 2/3 steps", min_runs=1000, min_states=100)
S("C09", [cpp("c09.cpp", flags=PLAIN), py("c09.py", name="c09py"), R("c09.R", name="c09R"), cpp("c09.cpp", name="c09asan", flags=ASAN, args=["--only", "large", "--prefix", "asan:"], quick_only=True)], bounds="containers of 0-3 samples (plus a copied sample or a JSON round trip), 1-3 trees of 5 shapes (first three enumerated), output dimension 1-3 with and without basis, 1-4 rows, row- and column-major input, every range of trees; Python: sampled containers of 1-4 samples x 1-3 trees x 3 leaf models x 1-4 test rows x C/Fortran/strided arrays; R: sampled containers of 0-3/4 samples x 1-3 trees x 3 leaf models x initialised roots x row selections (missing values, unseen codes) x matrix forms x 3 ways to reload; containers of up to 12 samples x 31 trees of up to 70 edits on 17 and 150 rows of 5 features, and one at a time 130 samples, 270 trees, 2600 rows (also under address sanitizer)", min_runs=1000, min_states=100)
S("C10", [cpp("c10.cpp", shim=True, flags=PLAIN), cpp("c10.cpp", name="c10asan", shim=True, flags=ASAN, args=["--only", "large-containers", "--prefix", "asan:"], quick_only=True)], bounds="all edit histories of length 3 (quick) / 4 (thorough) x output dimension 1-3 followed by every further edit; containers of 0-3 samples x 1-2 trees, string and file, into fresh and used containers; all 3/4-iteration sampling histories with a reload before every iteration; containers of up to 26 samples x 13 trees of up to 90 edits, into fresh and used containers (also under address sanitizer), and one at a time 130 samples, 130 trees, 400 edits", min_runs=1000, min_states=100)
S("C14", [cpp("c14.cpp", shim=True, flags=PLAIN), py("c14.py", name="c14py")], bounds="all residual vectors of <=5 (quick) / <=7 (thorough) values over a 4-value grid x 9 priors x 3 gamma draws; all ensembles of 1-2/1-3 trees reached by <=2/3 grow/prune edits x 9 priors, directly and inside a container; Python: all residual vectors of <=4/5 values, sampled containers of 1-3 samples x 1-3 trees x 2 leaf models; residual vectors of 1-6000 values of magnitude 1e-6 to 1e7 in 4 patterns; ensembles of 1-1500 trees with leaves of magnitude 1e-6 to 1e4", min_runs=1000, min_states=100)
S("C12", [cpp("c12.cpp", shim=True, flags=("-O2",)), cpp("c12.cpp", name="c12asan", shim=True, flags=ASAN, args=["--only", "many-groups,category-mapper,tracker", "--prefix", "asan:"], quick_only=True)], bounds="all labellings of 4 (quick) / 5 (thorough) observations with 3/4 labels from 2/4 label sets, 1-2/1-3 components, 2 bases, 2 prior/state settings; every unit direction of every normal draw; 6 and 13 groups of 1-4 observations in 3 orders; chains of 3/4 iterations with outside residual changes; group bookkeeping for all labellings of <=6/<=7 observations with 4 labels", min_runs=1000, min_states=100)
S("C13", [cpp("c13.cpp", flags=PLAIN), R("c13.R", name="c13R"), cpp("c13.cpp", name="c13asan", flags=ASAN, args=["--only", "large", "--prefix", "asan:"], quick_only=True)], bounds="every ordered selection of 1-3 of 5 labels (thorough 1-4 of 6), 1-2/1-3 components, 0-3 stored draws, every test set of <=3/<=4 rows over the trained labels and an unseen one, as sampled / reloaded into fresh / into used objects / through text, and sampling continued after the reload; R: 5 label sets x 1-2/1-3 components x 1-5 draws x 3 ways to reload, predictions of label selections, parameters, label maps; up to 37 groups, 3 components and 24 draws (also under address sanitizer), and one at a time 150 groups, 130 draws", min_runs=1000, min_states=100)
S("C18", [py("c18.py", name="c18py"), R("c18.R", name="c18R")], bounds="every sequence of <=2 writes over all field kinds, values, two names and three/two folders, and of <=3 (quick) / <=4 (thorough) writes over a reduced value set, interleaved with forests, random-effects terms, file reloads into fresh and used stores; all numeric and string lists; array layouts; 13-14 forests and random-effects terms in one document", min_runs=1000, min_states=100)
S("C15", [cpp("c15.cpp", flags=ASAN), py("c15.py", name="c15py"), R("c15.R", name="c15R")], bounds="every sequence of <=3-4 (quick) / <=4-5 (thorough) load/update operations on the C++ containers with shapes up to 4x3 in both memory orders (address-sanitizer build, exact-size buffers, special doubles) and up to 40000x2 and 7x300; Python: shapes up to 4x3 x 12 layouts/dtypes for covariates, bases, basis updates, weights, outcomes and sampler settings; R: shapes up to 4x3 x 4 matrix forms, all outcome vectors of <=4 values over 3, all label vectors of <=4 over 3 labels", min_runs=1000, min_states=100)
S("C16", [py("c16.py", name="c16py")], bounds="every frame of 1-2 columns of 18 kinds and 3 columns of 7 (quick) / 18 (thorough) kinds x 6 test row selections x 4 ways of writing the test levels; all categorical columns of <=3/<=4 declared levels and rows x every test column of <=2 values incl. an unseen level; all histories of 3/4 calls on two transformers over 7 frames and arrays; all arrays up to 3x2 over 3 values x 5 dtypes x 4 layouts; frames with one column more or fewer than the training frame", min_runs=1000, min_states=100)
S("C17", [R("c17.R", name="c17R")], bounds="every frame of 1-2 columns of 10 kinds and 3 columns of 5 (quick) / 10 (thorough) kinds x 6 test row selections x 4 ways of writing the test levels x 3 test column orders; all categorical columns of <=3/<=4 levels and rows (incl. missing) x every test column of <=2 values incl. unseen and missing; all assignments of numeric/ordered/unordered roles to <=3 named or numbered columns; matrices up to 3x3", min_runs=1000, min_states=100)
S("C19", [py("c19.py", name="c19py")], bounds="every combination of 0-2 (quick) / 0-3 (thorough) grow-from-root, burn-in and MCMC samples x keep switches x leaf model (constant, one or two basis columns) x variance switches x test set; 3 sample schedules x 1-3 trees x prior settings (each given or calibrated) x seeds; every form of covariates (vector, matrix in both orders, data frame with categories or text), basis, outcome and 0-3 test rows with prediction on every row; all histories of 3/4 fits of 5 configurations on two models; 13 kinds of mismatched input x covariate forms x bases on new and sampled models", min_runs=1000, min_states=20)
S("C20", [py("c20.py", name="c20py")], bounds="every combination of 0-2 grow-from-root, 0-1 (thorough 0-3 and 0-2) burn-in and 0-2 MCMC samples x keep switches x treatment kind x adaptive coding x variance switches x test set; 8 treatment codings x propensity use and columns x covariate forms x 0-3 test rows; internal propensities; prior settings given or calibrated; every pair of keep/drop lists in 2-5 written forms; variable weights; histories of 2/3 fits of 6 configurations on two models; 25 kinds of mismatched input x covariate forms x treatments x propensity uses on new and sampled models; coding-parameter draws driven by a known normal sequence", min_runs=1000, min_states=20)
S("C21", [R("c21.R", name="c21R")], bounds="every combination of 0-2 grow-from-root, 0-1 (thorough 0-2) burn-in and 0-2 MCMC samples x keep switches x leaf model x random effects (none, labels, one or two basis columns) x variance switches x test set for bart() and bcf(); 5 covariate forms x bases x 4 label kinds x 0-3 test rows; prior settings given or calibrated; 6 treatment codings x propensity use and columns; internal propensities; keep/drop lists by index and name; JSON in memory, to file and twice; 48 kinds of mismatched input x covariate forms x bases, treatments and groups", min_runs=1000, min_states=50)
S("C11", [cpp("c11.cpp", flags=PLAIN), py("c11.py", name="c11py"), R("c11.R", name="c11R")], bounds="every interleaving of two samplers (own or shared variance samplers) running every schedule of 3 (quick) / 4 (thorough) steps from {MCMC, grow-from-root, error variance, leaf scale, random effects} over 6 configurations, and every schedule of 4/6 steps after 4 kinds of other work, with fresh memory holding 2-4 fill bytes; Python models: 56 configurations x 3 seeds x 8 disturbances, every reuse of a model object after 1-2 earlier samplings, fresh processes under 3 hash seeds / memory fills; Python and R low-level loops in every interleaving; R models: configurations x random effects x 6 disturbances", min_runs=20000, min_states=5000)
S("C22", [cpp("c22.cpp", flags=PLAIN), R("c22.R", name="c22R"), cpp("c22.cpp", name="c22asan", flags=ASAN, args=["--only", "large,reuse", "--prefix", "asan:"], quick_only=True)], bounds="every single tree reached by <=4 (quick) / <=5 (thorough) grow and prune steps over 4/5 rules, two and three trees (first one enumerated to 2-4 steps, the others from 6 shapes with recycled node slots), output dimension 1-2, as built, copied and reloaded; 40-row grid incl. missing values and codes outside the splits; all overloads; every history of 2/3 calls on one kernel object over two ensembles and 3 x 3 datasets; R: fitted models of 5 covariate forms x 1-4 trees x every stored sample x train subsets x 0-5 test rows; 3, 12, 60 and 300 trees of up to 60 edits on 20-120 train and 33-2100 test rows (also under address sanitizer)", min_runs=10000, min_states=1000)
S("C23", [py("c23.py", name="c23py", ref="c23ref.cpp"), R("c23.R", name="c23R", ref="c23ref.cpp")], bounds="every combination of leaf model (dimension 1 or 3, full scale matrices) x variable types x case weights x trees x tree prior and minimum leaf x scale x variable weights x cutpoint grid x error variance x array layout under two or three (thorough: four) call sequences; every sequence of 4 (quick) / 5 (thorough) calls from {MCMC, grow-from-root, error variance, leaf variance, residual add, residual subtract, basis update} on 6 configurations, fresh or root-initialised; every sequence of 3/4 calls on two forests sharing residual and generator; R: the same with sequences of 3/4 and 2/3, and random-effects histories of 4/5 calls over 4 labellings x 1-2 components", min_runs=1000, min_states=100)
