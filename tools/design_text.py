'''Hand-written parts of DESIGN.md: for each property, the oracle, and why the check reaches what the tests cannot.'''

HEAD = '''# Deciding the properties of lxai2019 with property-based testing

## Method

Every property of `properties.jsonl` is decided by generated-input search (Hypothesis strategies and structured generators) against an explicit
oracle, on the real code of `/repo` imported from the working tree. Nothing is `not_applicable`.

* `check.py PROP` plans the sub-checks ("subs") of a property over worker processes, each running in a scratch working directory, and
  aggregates the evidence (`evidence/<id>.json`: cases generated, distinct non-trivial ones by the rule stated there, samples, distribution of tags).
* `vk/core.py` drives one sub: Hypothesis draws JSON specs (deterministic per VERIF_SEED, sub and shard), `run(spec, ctx)` builds the real objects
  and compares with the oracle. A failure is shrunk; the minimal spec is the replay file (`check.py PROP --replay FILE` needs no generator).
* An exception of the code under test on a valid input is a violation. An error of the harness (timeout, memory, its own inconsistencies) exits 3 and
  never claims a violation.
* `vk/gen.py`: generators. `vk/regions.py`: reference model of regions and an interpreter of operation sequences. `vk/dataset.py`: described regions
  over generated datasets in a scratch folder. `vk/solve.py`: trained solvers and what they have to say. `vk/commands.py`: the command-line programs in
  process. `vk/harness_models.py`: a model that remembers what it was trained with. `vk/props/<id>.py`: domain, oracle and non-triviality rule of each property.
* Quick tier: the counts below, 2 to 60 s per property on 8 cores. Thorough tier: the same subs with 10 to 40 times the cases split over 8
  processes with different seeds, 1 to 40 minutes per property. `VERIF_SEED` (or `--seed`) selects the search; there is no other randomness.

Oracles judge values returned by public operations, files written, text printed and errors raised, never source text, private attributes or the number of
internal calls. Numbers are compared with a relative tolerance (1e-7 or wider for chains of operations) unless the result is a copy of an input, which is
compared exactly. Where the mathematics leaves a choice (ties between medoids, neighbours at equal distance, alignments of equal cost) every choice is accepted.

### Faults, histories and schedules

* Histories: sequences of operations are part of the generated spec (subset chains, partition requests with damage to the stored files in between,
  loads of matrices, saved and reloaded solvers, queries in a row, commands in a row).
* Faults: training failures of models (per point, injected into the harness model or into statsmodels), truncated/garbage/missing stored files, unusable
  matrices, invalid arguments.
* Schedules: the parallel code uses multiprocessing pools with map; results are compared with the serial reference for 1..5 workers over many
  runs. The operating system chooses the schedule; it is sampled, not enumerated. The workers share no state, so the relevant dimension is how the work is
  split, and that is generated (number of points against number of workers).

### What is outside

* `spta/classifier/dnn.py`: the network itself (keras 3 rejects the `lr` argument used there, and there is no trained model in the repository). Its
  surroundings are decided with a stand-in network (S05 `network`) and a stand-in classifier (S05, X01 `classifier`).
* `spta/arima/{fuzzy_sensibility,performance,optimize}.py`, `experiments/arima/fuzzy_sensibility.py`, `experiments/clustering/silhouette.py` with
  `spta/kmedoids/silhouette.py` (class), `spta/util/parallel_old.py`, `spta/kmedoids/{kmedoids_bad,iris_kmedoid,example1d,example2d}.py`, `other/`: they import
  names that no longer exist or are demonstrations; no property is stated about them.
* Of the figures it is decided that they show the data at its place and in the colours of the clusters (U03, X04), and that they are written
  (D05, S02, X02, X03); fonts, sizes, titles and the choice of colours are not.
* Nested iteration over one region object is documented as unsupported.

## Properties
'''

# property: (oracle, reach)
TEXT = {
'R01': ('numpy slicing of the raw array, composed over the whole chain, with the offsets of every subset added up by the model; scaling data are sliced alike.',
        'a test subsets once; wrong offsets, axes or stale scaling data only show in chains, on rectangles that are not square, or after scaling.'),
'R02': ('the list of points in row-major order and the raw array; every view is compared with it after every other view.',
        'stateful iterators and caches only go wrong in particular sequences of reads.'),
'R03': ('membership computed from the labels alone: the points of a derived cluster are those of the label, their values the results of the plain operation.',
        'each derived object must keep mask, order and scaling; tests look at one of them for one cluster.'),
'R04': ('a loop over points in plain Python: function at the point applied to the value at the point.',
        'swapped coordinates and shared results only show when the functions differ between points and the region is not square.'),
'R05': ('min-max formula per series on the raw data; the original values after any sequence of operations and the final descaling.',
        'scaling must survive every sequence of operations; tests descale directly after scaling.'),
'R06': ('linear search over the members in row-major order, skipping missing values; np.repeat by hand for replication.',
        'ties, missing values and members-only search.'),
'R07': ('the raw arrays that were saved, per description; every description read back after all were written.',
        'collisions of names between descriptions need several stored at once.'),
'R08': ('arithmetic on offsets: the value of the dataset at the converted coordinates is the value of the region.',
        'offsets in both axes with rectangles that are not square.'),
'R09': ('datetime arithmetic over the whole calendar: the index of each sample counted by day, the mean of the four samples of a day.',
        'leap years, year ranges at both ends and caches left by earlier loads.'),
'P01': ('the label matrix itself.', 'all six ways of asking, before and after copies.'),
'P02': ('each point takes the value of its own cluster from that cluster\'s sheet.', 'order of the clusters, types and memory layouts of the values.'),
'P03': ('rectangles from the definition of balanced divisors and even cuts, checked exhaustively in a range.', 'tests use divisible sizes.'),
'P04': ('sets of labels of the points of the rectangle, counted by hand.', 'rectangles over some clusters of regions that are not square.'),
'P05': ('a dictionary from request to the partition first stored for it; freshly computed when the stored file is damaged.', 'histories, shared folders and damage.'),
'P06': ('exact comparison of sixteenths: a point belongs to each cluster whose membership reaches the threshold, and to its best.', 'ties and thresholds hit exactly.'),
'D01': ('dynamic programming in plain Python; axioms of a distance.', 'missing samples, different lengths, ties.'),
'D02': ('pairwise distances by D01\'s reference.', 'number of workers against number of points, clusters, index sets.'),
'D03': ('a model of the measure: matrix last loaded, plus weight times grid distance.', 'load histories with rejected files.'),
'D04': ('argmin of the sums over members, every minimum accepted.', 'clusters and centroids known beforehand.'),
'D05': ('the distances looked up in the matrix, numpy statistics by definition.', 'clusters with one point, outside points.'),
'C01': ('exhaustive evaluation of all single swaps: none improves; labels are nearest medoids; cost is the sum.', 'local optimality on arbitrary distances.'),
'C02': ('the same call again, after other uses of the random generator; measured against precomputed.', 'hidden state.'),
'C03': ('membership formula recomputed; cost recomputed; no worse than the start.', 'starts that are already optimal, fuzzifiers.'),
'C04': ('the tuple of parameters: equal iff all equal; parsing gives the tuple back.', 'pairs that differ in one parameter or swap digits.'),
'C05': ('cartesian product of counts and seeds; tables recomputed from labels and distances.', 'offset rectangles, foreign files.'),
'C06': ('second differences by definition, all maxima accepted.', 'uneven counts, several seeds, stored partitions.'),
'C07': ('silhouette formula in plain Python; maximum over the suite.', 'ties, singletons, order of visit.'),
'C08': ('counts, costs and distances from labels and matrix.', 'empty clusters and offsets.'),
'C09': ('core points, connected groups and border points by definition, in plain Python.', 'bridged groups, border points between clusters, distances of exactly 0.7.'),
'M01': ('slicing of the raw data.', 'splits after scaling, clustering and subsetting.'),
'M02': ('a harness model whose forecast is a function of its parameters and training series.', 'which series each model saw, and what happens where training fails.'),
'M03': ('all windows enumerated, distances by definition, every choice among ties accepted; arithmetic mean.', 'ties, k beyond the windows.'),
'M04': ('statsmodels and pmdarima called directly; injected failures.', 'failures at particular points in particular phases.'),
'M05': ('published formulas in scalar arithmetic on data in original units.', 'scaled regions, missing forecasts, clusters.'),
'M06': ('root mean square by definition over known errors.', 'missing values, chunks of work.'),
'M07': ('forecasts, errors and extremes recomputed point by point.', 'failing models, reuse of one analysis object, scaling.'),
'S01': ('the clustering on the raw data, models fitted directly on the medoid\'s series.', 'models, errors and refits at every point.'),
'S02': ('restriction of the answer for the whole region.', 'rectangles, future lengths, sequences of queries.'),
'S03': ('the answers before saving.', 'several solvers in one place.'),
'S04': ('the spec of the result: coordinates, values and summary recomputed, tables parsed.', 'several queries, offsets, missing values.'),
'S05': ('the label chosen by the stand-in classifier, the model at the medoid it denotes.', 'labels of several clusterings, other regions as source.'),
'S06': ('argmin over all medoids (first on ties); draws compared between runs.', 'ties, thresholds, offsets.'),
'S07': ('explicit enumeration of starts.', 'strides and lengths that leave a rest, repeated labels.'),
'U01': ('definitions by exhaustive search.', 'squares, ties, missing values, tight exclusion lists.'),
'S08': ('the line computed from the entry itself; profiles by formula, every delay tried.', 'uneven regions, both parities, no noise (exact), other random numbers in between.'),
'U02': ('dynamic programming; the cost recomputed at each step.', 'different lengths, dirty matrices.'),
'U03': ('images, lines, patches and texts of the figure objects, compared with the data.', 'regions that are not square, marks on black, rectangles at the sides.'),
'X01': ('S01-S05\'s references, from the arguments of the command alone; output and tables parsed.', 'the wiring of arguments, defaults and files of the programs, which no test runs.'),
'X02': ('references of C05-C08, D02 and S06; output, tables and matrix read back.', 'as X01.'),
'X04': ('references of D04, C07 and D02; figures captured when they are saved, as in U03.', 'as X01.'),
'X03': ('models fitted directly, M05-M07\'s references; output and tables parsed.', 'as X01, with training failures.'),
}

TAIL = '''
## Genuine defects found

All were repaired in `/repo` (one `fix:` commit each) and are listed in `known_findings.txt`; there is no open finding.

{findings}

## False alarms and how they were resolved

* C02: with two points at distance zero the medoid may be reported in the cluster of its twin: the statement holds where no two points coincide, so the
  generator keeps points distinct for that part (duplicates are generated in C01, where the cost does not depend on the choice).
* D04: sums of distances that tie up to rounding: all minima within 1e-9 are accepted.
* M03: which of several neighbours at equal distance is taken is free.
* U02: equally good alignments give different averages: only length and cost are decided there.
* P02: the merge asked for foreign clusters was outside of what is offered; the generator supplies the clusters of the partition.
* S05: the stand-in classifier compared series by broadcasting; it now requires equal lengths.
* S06: errors that agree up to rounding are interchangeable choices.
* R07: descriptions that share a name by design are not mixed.
* X02: the histogram figure documents that it does not bother with a single cluster; it is only asked for with two or more.
* X01: a classifier stand-in with two equal stretches of data is resolved by the first; sources of the past get different data.

## Planted bugs

`tools/plant.py` builds each one from a spec (edits and demonstration), confirms in a scratch copy that it builds, that the stable tests pass,
that the demonstration fails with it and passes without it, and runs the check of its property. They were written from the statements and the code. All of the
bugs below are caught by the quick check of their property (seed 1). Marked (*) were missed at first and led to a stronger generator:

{seeded}

What the misses taught: sizes beyond a threshold (regions with more rows than a block, suites with many seeds), memory order of arrays (Fortran order and
views), integer input, names that differ only in one field, a second use of the same object, and equal values in different places. These dimensions are now in
`vk/gen.py` and used by all generators that draw arrays.
'''

MISSED = '''p01_take_memory_order p01_row_of_tall_region p02_supplied_order p06_reshape_order d01_rmse_combine d03_size_by_product d03_cache
c02_integer_distances c05_seed_options m02_zero_model m03_integer_mean m04_refit_first_order s01_scale_of_test s03_short_name s03_past_whole
s04_joined_name s04_same_length s05_length_of_other s07_first_label u01_small_points x02_resume x03_name_of_order x03_fit_missing'''.split()
MISSED_PREFIX = ('d02_', 'd04_')
