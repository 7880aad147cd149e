#!/usr/bin/env python3
"""writes properties.jsonl (one place to edit titles, statements and anchors)"""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
p('C01', 'A copy of a data set is equal to the original and independent of it',
  'Copying a data set, vector, matrix or set of names gives an object with the same sizes, numbers, text, weights, names, title and pages as the original. The copy shares no storage with the original, the original is unchanged, and copying into an object that cannot hold the source reports an error and writes nothing out of bounds.',
  'for every data set (any subset of vector, matrix, weights, text, names, title, any number of pages, any sizes and contents, including views)',
  'The tests copy a few fixed data sets and compare some of the elements; a lost name, an aliased buffer or an overrun depends on which parts are present together.',
  ['apop_data.m4.c', 'apop_conversions.m4.c', 'apop_name.m4.c'],
  [('copy and copy-into of a data set', 'apop_data.m4.c: apop_data_copy, apop_data_memcpy'), ('vector and matrix copies', 'apop_conversions.m4.c: apop_vector_copy, apop_matrix_copy'), ('names', 'apop_name.m4.c: apop_name_copy')])
p('C02', 'Element access by position or name reads and writes exactly that element',
  'Reading, writing or taking the address of an element of a data set by row/column position, by row/column name, or on a named page, refers to exactly the named element (column -1 is the vector, and a missing column defaults sensibly); a write changes no other element. A position or name that does not exist yields the documented error value (not-a-number, a null address, or a nonzero return) and leaves the data untouched.',
  'for every data set shape and every row/column position or name, existing or not',
  'The tests index a handful of positions that exist; the out-of-range and name-resolution cases quantify over all shapes and names.',
  ['apop_data.m4.c'], [('get/set/ptr dispatch', 'apop_data.m4.c: apop_data_get, apop_data_set, apop_data_ptr'), ('error handling', 'apop_linear_algebra.m4.c: apop_gsl_error')])
p('C03', 'Stacking data sets concatenates every part in order',
  'Stacking two data sets by rows or by columns gives a data set whose vector, matrix, weights, text and names are those of the first followed by those of the second. The inputs are unchanged unless the in-place form is requested, in which case the first input becomes the result.',
  'for every pair of data sets with compatible (possibly absent) parts, both directions, in place or not',
  'Tests stack a few shapes; the combination of absent parts, text grids and names is where stacking goes wrong.',
  ['apop_data.m4.c', 'apop_linear_algebra.m4.c', 'apop_name.m4.c'], [('stacking', 'apop_data.m4.c: apop_data_stack'), ('matrix/vector stacking', 'apop_linear_algebra.m4.c: apop_matrix_stack, apop_vector_stack')])
p('C04', 'Splitting a data set partitions it at the split point',
  'Splitting a data set by rows or columns at a position gives two data sets holding respectively the elements before and from that position, with their names and weights, and nothing lost or duplicated; stacking the two halves restores the numbers. A split point at or beyond either end gives one complete copy and one absent part.',
  'for every data set shape and every split point',
  'Tests split a few shapes at interior points only.',
  ['apop_data.m4.c'], [('splitting', 'apop_data.m4.c: apop_data_split')])
p('C05', 'Removing rows keeps exactly the unmarked rows, in order, across all parts',
  'Removing rows (by a mark list, by a predicate, or by dropping rows with missing values) leaves precisely the rows that were not selected, in their original order, with each kept row still carrying its own vector element, matrix row, weight, text and row name. When nothing is selected the data are unchanged.',
  'for every data set and every subset of rows, and every pattern of missing values',
  'Tests remove rows from a few fixed data sets; keeping all parts aligned depends on the pattern of removed rows.',
  ['apop_data.m4.c', 'apop_missing_data.m4.c'], [('row removal', 'apop_data.m4.c: apop_data_rm_rows'), ('listwise deletion', 'apop_missing_data.m4.c: apop_data_listwise_delete')])
p('C06', 'Removing columns keeps exactly the unmarked columns with their names',
  'Removing a set of matrix columns, or pruning to a list of named columns, leaves precisely the other (respectively the named) columns with their own contents and names, and the rest of the data set as it was. Columns that are all removed leave the data set without a matrix and without column names.',
  'for every matrix shape and every subset of columns or list of names',
  'Tests remove columns from one or two fixed matrices; losing alignment between names and columns depends on the subset.',
  ['apop_data.m4.c'], [('column removal', 'apop_data.m4.c: apop_data_rm_columns, apop_data_prune_columns')])
p('C07', 'Transposition swaps rows and columns of numbers, text and names',
  'The transpose of a data set has element (j,i) equal to element (i,j) of the original, for numbers and, unless suppressed, text, with row and column names exchanged; transposing twice restores numbers, names and text. The in-place form gives the same result and the copying form leaves its input unchanged.',
  'for every matrix and text shape, in place or copying',
  'Tests transpose a few square and rectangular matrices; in-place transposition permutes memory in a way that depends on both dimensions.',
  ['apop_data.m4.c'], [('transposition', 'apop_data.m4.c: apop_data_transpose, apop_matrix_transpose')])
p('C08', 'The text grid always matches its recorded size and keeps its contents',
  'After any sequence of allocations, resizings and writes, every cell inside the recorded size of the text grid holds a valid string; resizing preserves every cell that is inside both the old and the new size and new cells are blank. Writing one cell stores exactly the formatted text there and changes no other cell, and writing outside the grid is refused with an error.',
  'for every sequence of grid allocations, resizings and cell writes with any contents',
  'Tests grow a grid once or twice; a stale pointer or an uninitialised cell shows only for particular combinations of growing and shrinking the two dimensions.',
  ['apop_data.m4.c'], [('text allocation', 'apop_data.m4.c: apop_text_alloc'), ('cell write', 'apop_data.m4.c: apop_text_set'), ('blank sharing', 'apop_data.m4.c: apop_nul_string')], over=('inputs', 'histories'))
p('C09', 'Pages form a list that can be extended, searched and pruned without loss',
  'Adding a page to a data set appends it after all existing pages under the given name; looking a page up by name finds the first page so named (ignoring case, or exactly, or by a regular expression when asked); removing a named page unlinks just that page. All other pages, and the main page, keep their order and contents.',
  'for every list of pages and every title, including repeated, empty and absent titles',
  'Tests use lists of one or two pages.',
  ['apop_data.m4.c'], [('pages', 'apop_data.m4.c: apop_data_add_page, apop_data_get_page, apop_data_rm_page')], over=('inputs', 'histories'))
p('C10', 'Name lists record what was added, in order, and are found by lookup',
  'After adding names of each kind, every kind holds exactly the names added to it in order, and the title and vector name hold the last value set; looking a name up returns the position of a name that matches ignoring case (an identically spelled one if there is one, or the vector code, or not-found if none matches). Copying and stacking names preserve order and contents and never alias the source.',
  'for every history of additions, lookups, copies and stackings with any strings',
  'Tests add and look up a few distinct names; hash collisions, case folding, absent kinds and longer histories are not reached.',
  ['apop_name.m4.c'], [('names', 'apop_name.m4.c: apop_name_add, apop_name_find, apop_name_stack, apop_name_copy')], over=('inputs', 'histories'))
p('C11', 'Resizing or stacking vectors and matrices preserves the surviving elements',
  'After resizing a vector or matrix, every element whose position exists in both the old and the new size keeps its value at that position and the recorded size is the requested one; stacking gives the elements of the first followed by those of the second. Inputs that are only read are unchanged, and resizing a view is refused or leaves its parent intact.',
  'for every old and new size, including growing one dimension while shrinking the other',
  'Tests resize a few matrices; the memory moves differ for each combination of growing and shrinking.',
  ['apop_linear_algebra.m4.c'], [('resizing', 'apop_linear_algebra.m4.c: apop_vector_realloc, apop_matrix_realloc'), ('stacking', 'apop_linear_algebra.m4.c: apop_vector_stack, apop_matrix_stack')])
p('C12', 'Packing a data set into a vector and unpacking restores it',
  'Packing a data set lays its vector, then matrix, then weights, then following pages, end to end in one vector without loss; unpacking that vector into a data set of the same shape restores every element. Filling a data set from a list writes the elements row by row, vector entry first.',
  'for every data set shape including pages, and all contents',
  'Tests pack a few shapes; each combination of absent parts and pages moves the offsets.',
  ['apop_conversions.m4.c', 'apop_data.m4.c', 'apop_asst.m4.c'], [('pack', 'apop_conversions.m4.c: apop_data_pack, apop_data_unpack'), ('fill', 'apop_conversions.m4.c: apop_data_fill_base, apop_vector_fill_base, apop_matrix_fill_base')])
p('C13', 'Sorting orders the rows and moves each row as a unit',
  'After sorting a data set, its rows are a permutation of the original rows in which every row keeps its own vector element, matrix row, weight, text and name, and consecutive rows are in the requested order of the sort keys. The in-place and copying forms give the same result and the copying form leaves its input unchanged.',
  'for every data set and every choice of sort keys and direction',
  'Tests sort a few small data sets on one key; permutation cycles and ties depend on the contents.',
  ['apop_sort.m4.c'], [('sorting', 'apop_sort.m4.c: apop_data_sort, rearrange, perm'), ('vector sort', 'apop_sort.m4.c: apop_vector_percentiles')])
p('C14', 'Compressing to ranks and expanding back describe the same tallies',
  'Expanding a histogram-of-ranks produces, for each rank, as many entries as its count, and compressing a list of ranks counts each rank exactly; compressing after expanding restores the counts.',
  'for every vector or matrix of nonnegative integer counts',
  'Tests use one short example.',
  ['apop_asst.m4.c'], [('ranks', 'apop_asst.m4.c: apop_data_rank_expand, apop_data_rank_compress')])
p('C15', 'Categories, factors and dummies encode the distinct values faithfully',
  'The list of distinct values of a vector or text column is sorted, has no repeats and contains exactly the values present; converting a column to factors assigns each row the position of its own value in that list; dummy variables have a one exactly in the column for the row\'s own category (with the base category omitted unless asked for).',
  'for every column of numbers or text',
  'Tests use one or two small columns.',
  ['apop_regression.m4.c'], [('unique elements', 'apop_regression.m4.c: apop_vector_unique_elements, apop_text_unique_elements'), ('factors and dummies', 'apop_regression.m4.c: apop_data_to_factors, apop_data_to_dummies')])
p('C16', 'A model\'s settings groups behave as a keyed collection',
  'After any sequence of adding, copying and removing settings groups on a model, looking up a group returns the latest one added under that name or nothing if it was removed or never added, and other groups keep their identity and contents. Removing releases the group through its own destructor exactly once, and copying a group to another model leaves the source unchanged.',
  'for every history of additions, removals, copies and lookups under any names',
  'Tests add a couple of groups; removal from the middle, re-adding and copying across models are history dependent.',
  ['apop_settings.c', 'apop_model.m4.c'], [('settings list', 'apop_settings.c: apop_settings_group_alloc, apop_settings_remove_group, apop_settings_copy_group, apop_settings_get_grp')], over=('histories', 'inputs'))
p('C17', 'A dispatch table returns the function registered for a key, and only that',
  'After any sequence of registrations and removals, looking a key up in a named table returns the function registered for that key since it was last removed, and nothing when there is none. Registering a key that is already present changes nothing (so that removing a key and registering an empty entry blocks it), removing a key leaves every other registration in place, and tables with different names never interfere. (Table names are told apart by their 64-bit hash.)',
  'for every history of additions, removals and lookups over any table names and keys',
  'Tests only exercise the registrations made at start-up; removals and growth are never followed by lookups of the others.',
  ['apop_vtables.c'], [('tables', 'apop_vtables.c: apop_vtable_add, apop_vtable_get, apop_vtable_drop')], over=('histories', 'inputs'))
p('C18', 'Copying a model yields an independent equal model and dispatch is consistent',
  'A copied model has the same sizes, functions, parameters, information pages, error state and settings as the original, with its own storage for everything but the data it refers to; changing or freeing one leaves the other as it was. The likelihood of a model that only supplies its log (or the reverse) is the exponential (logarithm) of what it supplies.',
  'for every model with any combination of parameters, information, settings and functions',
  'Tests copy models only inside estimation, and never compare after modifying one side.',
  ['apop_model.m4.c', 'apop_settings.c'], [('copy', 'apop_model.m4.c: apop_model_copy, apop_model_clear'), ('dispatch', 'apop_model.m4.c: apop_p, apop_log_likelihood')])
p('C19', 'Mapping a function visits each item exactly once and stores its result there',
  'Mapping a function over a data set, vector, matrix or text grid (by item, row or column; with or without the index and parameter) applies it to each requested item exactly once and stores each result in the position of its item, leaving other parts alone; the in-place forms give the same results in place. The sum-of-map forms equal the sum of those results.',
  'for every data set shape, every part selection and any function',
  'Tests use a few shapes; which rows a worker handles depends on size and number of threads.',
  ['apop_mapply.m4.c'], [('map', 'apop_mapply.m4.c: apop_map, apop_map_sum, apop_vector_map, apop_matrix_map and relatives')], over=('inputs', 'schedules'))
p('C20', 'Weighted and unweighted moments equal their defining sums',
  'The mean, variance, skew, kurtosis, covariance and correlation of a vector (with or without weights), and the covariance/correlation matrices of a data set, equal their definitions; weights that are all one, or equal and summing to one, give the unweighted result and integer weights agree with repeating the data. The sample variance, skew and kurtosis are unbiased. Empty or absent input gives the documented not-a-number rather than an out-of-bounds read.',
  'for every vector and weight vector',
  'Tests compare a few samples; an error in one branch of weighting or size handling shows only for particular inputs.',
  ['apop_stats.m4.c'], [('moments', 'apop_stats.m4.c: apop_vector_mean, apop_vector_var, apop_vector_skew_pop, apop_vector_kurtosis_pop, apop_vector_cov, apop_data_covariance')])
p('C21', 'Vector summaries: sums, distances, norms, percentiles and normalisation',
  'The sum of a vector or matrix, each supported distance between two vectors, the percentile table, the moving average and each normalisation equal their definitions over all elements, and do not modify their inputs except where in-place operation is asked for. Predicates such as boundedness and entropy agree with their definitions.',
  'for every vector or matrix and every option',
  'Tests check a few samples for some of the options.',
  ['apop_stats.m4.c', 'apop_sort.m4.c', 'apop_hist.m4.c'], [('sums, distance, normalisation', 'apop_stats.m4.c: apop_sum, apop_matrix_sum, apop_vector_distance, apop_vector_normalize, apop_matrix_normalize'), ('percentiles', 'apop_sort.m4.c: apop_vector_percentiles'), ('moving average', 'apop_hist.m4.c: apop_vector_moving_average')])
p('C22', 'Linear constraints: returned point is feasible, penalty is its distance',
  'Checking a point against a set of linear constraints returns zero and leaves the point alone when all constraints hold; otherwise it returns the (scaled) positive distance moved and the point is replaced by one satisfying every constraint. Earlier calls do not influence later ones.',
  'for every set of feasible linear constraints and every point, and every sequence of calls',
  'Tests check a few constraints.',
  ['apop_linear_constraint.m4.c'], [('constraint', 'apop_linear_constraint.m4.c: apop_linear_constraint')], over=('inputs', 'histories'))
p('C23', 'The dot product of data sets is the matrix product with the requested transposes',
  'The dot product of two data sets picks the matrix or vector of each as documented, applies the requested transposes, and equals the mathematical product; row and column names come from the outer dimensions. Incompatible dimensions are reported as an error without touching memory out of bounds.',
  'for every pair of shapes and transposition flags',
  'Tests multiply a few shapes.',
  ['apop_linear_algebra.m4.c'], [('dot', 'apop_linear_algebra.m4.c: apop_dot')])
p('C24', 'Reading a delimited text file reproduces every field',
  'Reading a delimited (or fixed-width) text file puts each field of each record into the row and column of its position, honouring quotes, escapes, comments, missing-data marks and name headers, whatever the length of fields and the line-ending convention; short records are padded with missing data. No field is dropped, merged or split.',
  'for every file content and every delimiter/header option',
  'Tests read a few short files.',
  ['apop_conversions.m4.c'], [('parser', 'apop_conversions.m4.c: parse_a_line, prep_text_reading, apop_text_to_data, apop_text_to_db')])
p('C25', 'Data written to the database comes back equal from a query',
  'Printing a data set to a database table and querying it back returns the same numbers, text and names, including quotes and other special characters in text, missing values, and row names; query results of each requested kind (matrix, vector, text, single value, mixed) place each cell as requested. Tables reported as existing are exactly those created and not dropped.',
  'for every data set and table/column names',
  'Tests round-trip plain tables.',
  ['apop_db.m4.c', 'apop_db_sqlite.c', 'apop_conversions.m4.c'], [('writing', 'apop_conversions.m4.c / apop_db.m4.c: apop_data_to_db'), ('reading', 'apop_db_sqlite.c: apop_sqlite_query_to_*')])
p('C26', 'SQL aggregate functions equal the in-memory statistics',
  'The variance, standard deviation, skew and kurtosis functions available inside SQL equal the in-memory statistics of the same column for every group, ignoring nulls, regardless of row order; the scalar mathematical functions equal their C counterparts.',
  'for every column of numbers and every grouping',
  'Tests compare one column.',
  ['apop_db_sqlite.c'], [('aggregates', 'apop_db_sqlite.c: varianceStep, twoStep, threeStep, fourStep and finalisers')])
p('C27', 'Printed output contains every element and reads back equal',
  'Printing a vector, matrix or data set writes every element, in row order with the chosen delimiter and with names and text in their positions, to the requested file or stream; appending adds after existing contents and overwriting replaces them. A file printed with a plain delimiter reads back as the same numbers.',
  'for every data set and delimiter',
  'Tests print a few fixed sets.',
  ['apop_output.m4.c'], [('printing', 'apop_output.m4.c: apop_data_print, apop_matrix_print, apop_vector_print')])
p('C28', 'Text utilities: joining, matching and counting',
  'Joining a text grid yields every (unpruned) cell in row order separated by the given delimiters with the given ends; matching a regular expression reports a match exactly when one exists and returns every capture in its place for every match; the generalized harmonic numbers equal their definition for every argument and in every call order.',
  'for every grid, delimiter, pattern and string, and every order of calls',
  'Tests join two or three grids and match a few patterns.',
  ['apop_asst.m4.c'], [('text', 'apop_asst.m4.c: apop_text_paste, apop_regex, apop_generalized_harmonic')], over=('inputs', 'histories'))
p('C29', 'An empirical distribution assigns each row its weight share',
  'Compressing a data set to an empirical distribution merges equal rows and adds their weights, keeping the total weight; the probability of a row is its share of the total weight, its cumulative value the share at or before it, and draws return only rows of the data. Rows absent from the data have probability zero.',
  'for every data set with or without weights',
  'Tests use a few small sets.',
  ['model/apop_pmf.c', 'apop_hist.m4.c'], [('pmf', 'model/apop_pmf.c: apop_data_pmf_compress, pmf p, draw, cdf')])
p('C30', 'Regression estimates satisfy the normal equations',
  'The coefficients estimated by (weighted, instrumented) least squares satisfy the normal equations of the data up to rounding, residuals are orthogonal to the regressors, and predicted plus residual equals observed; the data set given by the user is altered only as documented.',
  'for every full-rank data set', 'Tests compare a few known regressions.',
  ['model/apop_ols.c', 'apop_regression.m4.c'], [('ols', 'model/apop_ols.c: apop_estimate_OLS')])
p('C31', 'Fixing some parameters of a model leaves exactly the others free',
  'A model with some parameters fixed exposes exactly the unfixed parameters, in order; its likelihood, draws and estimates equal those of the underlying model with the fixed values inserted at their own positions. The underlying model is unchanged.',
  'for every model and every pattern of fixed parameters including pages', 'Tests fix one parameter of one model.',
  ['transform/apop_fix_params.c'], [('fix params', 'transform/apop_fix_params.c: pack, unpack, apop_model_fix_params')])
p('C32', 'Model combinators compute the stated transformation of their component models',
  'A mixture\'s likelihood is the weighted sum of its components, a cross product\'s is the product over the data split given to each, a constrained model\'s is the original scaled by the retained mass and zero outside, and a coordinate transform carries its Jacobian; draws come from the components accordingly.',
  'for every set of component models and data', 'Tests evaluate each on a few points.',
  ['transform/apop_mixture.c', 'transform/apop_cross.c', 'transform/apop_dconstrain.c', 'transform/apop_coordinate_transform.c'], [('combinators', 'transform/*.c')])
p('C33', 'Raking matches the requested margins',
  'After raking, every requested marginal total of the output table equals that of the margin table within the tolerance, zero cells stay zero (unless filled as asked) and the structure of the odds ratios is that of the initial table.',
  'for every compatible pair of tables', 'Tests rake one or two tables.', ['apop_rake.m4.c'], [('raking', 'apop_rake.m4.c: apop_rake')])
p('C34', 'Row and column views refer to exactly the elements they name',
  'A view of one or more rows or columns of a data set has the requested size and its elements, weights, text and row names are exactly those of the viewed rows: reading through it gives the parent\'s values and writing through it changes the parent\'s elements and nothing else.',
  'for every data set shape and every range of rows or columns', 'Tests view a few rows of fixed data sets.', ['apop.m4.h', 'apop_data.m4.c'], [('views', 'apop.m4.h: Apop_r, Apop_rs, Apop_c, Apop_cs, Apop_rv, Apop_cv, Apop_subm, Apop_mrv, Apop_mcv')])
p('C35', 'Markov-chain sampling draws from the posterior',
  'The sampling procedures (Metropolis, Gibbs, adaptive rejection, bootstrap) return draws whose distribution converges to the target, within the requested burn-in and chunking, and are reproducible for a given seed.',
  'for every model and seed', 'Stochastic: tests look at a few means.', ['apop_mcmc.m4.c', 'apop_arms.c', 'apop_bootstrap.m4.c'], [('mcmc', 'apop_mcmc.m4.c: apop_model_metropolis')])
p('C36', 'Maximum-likelihood search returns a local optimum',
  'The maximum-likelihood search returns parameters at which no small feasible move improves the likelihood beyond the tolerance, reports non-convergence otherwise, and computed derivatives agree with the likelihood.',
  'for every model, data set and method', 'Tests check convergence on a few models.', ['apop_mle.m4.c'], [('mle', 'apop_mle.m4.c: apop_maximum_likelihood')])
p('C37', 'Bayesian updating matches the conjugate posterior',
  'Updating a prior with a likelihood and data gives the conjugate posterior parameters where a closed form exists and otherwise draws from the normalised product.',
  'for every conjugate pair and data set', 'Tests update a few pairs with loose tolerances.', ['apop_update.m4.c'], [('update', 'apop_update.m4.c: apop_update')])
p('C38', 'Hypothesis tests return the textbook statistic and probability',
  'Each classical test (t, paired t, F, chi-squared goodness of fit, Kolmogorov-Smirnov, ANOVA, exact contingency) returns the textbook statistic and the corresponding tail probability for its inputs.',
  'for every admissible data set', 'Tests compare a few published examples.', ['apop_tests.m4.c', 'apop_fexact.c', 'apop_hist.m4.c'], [('tests', 'apop_tests.m4.c')])
p('C39', 'Standard distributions: density, cumulative, score and draws agree',
  'For each built-in distribution the density, log-likelihood, score, cumulative function and draws describe the same distribution and the estimator maximises its likelihood.',
  'for every parameter value and data set', 'Tests probe a few parameters stochastically.', ['model/apop_normal.c', 'model/apop_gamma.c', 'model/apop_poisson.c'], [('models', 'model/*.c')])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
for x in P: assert len(x['title']) <= 80, x['id']
