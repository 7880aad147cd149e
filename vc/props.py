"""property -> functions under contract (proved on every run) and replay / bounded-search driver"""
PROPS = {
 'C02': dict(fns=['apop_data_get_base', 'apop_data_ptr_base', 'apop_data_set_base', 'variadic_apop_data_get', 'variadic_apop_data_ptr', 'variadic_apop_data_set'],
             driver='c02', level='proof'),
 'C11': dict(fns=['apop_vector_realloc', 'apop_matrix_realloc', 'variadic_apop_vector_stack', 'variadic_apop_matrix_stack'],
             driver='c11', level='proof', assume=['stacking: zero-length vectors/matrices and in-place targets that are views are outside the contracts\' preconditions']),
 'C17': dict(fns=['apop_vtable_get', 'apop_vtable_add', 'apop_vtable_drop'], driver='c17', level='proof',
             assume=['the three operations are verified sequentially (the OpenMP locks around them are dropped by the extraction)', 'table names with equal 64-bit hashes are the same table']),
 'C16': dict(fns=['apop_settings_get_grp', 'apop_settings_remove_group', 'apop_settings_group_alloc', 'apop_settings_copy_group'], driver='c16', level='proof',
             assume=['destructors and copiers reached through function pointers do not touch the settings lists; groups and destructors are non-NULL', 'group names are shorter than 100 characters and names with equal 64-bit hashes are the same name'],
             bounded=['whole-model copy and free (apop_model_copy, apop_model_free): histories of the driver only']),
 'C10': dict(fns=['apop_name_hash', 'apop_name_add', 'apop_name_find', 'apop_name_stack_base', 'variadic_apop_name_stack', 'apop_name_copy'], driver='c10', level='proof',
             assume=['stacking a set of names onto itself is outside the contract (separate storage is required) and only searched natively', 'a name is not added from the string it replaces (title/vector name)'],
             bounded=['stacking names onto themselves; freeing names (apop_name_free)']),
 'C09': dict(fns=['apop_data_add_page', 'apop_data_get_page_base', 'variadic_apop_data_get_page', 'apop_data_rm_page_base', 'variadic_apop_data_rm_page'], driver='c09', level='proof',
             assume=['freeing a page (apop_data_free) releases only storage belonging to that page (assumed contract with a ghost owner; exercised natively)', 'apop_regex is a fixed relation between the two strings'],
             bounded=['freeing a removed page; the regular-expression engine']),

 'C08': dict(fns=['apop_text_blank', 'apop_text_set'], driver='c08', level='proof',
             assume=['vasprintf/asprintf produce the formatted text (an uninterpreted function of the format)', 'distinct cells hold distinct strings on entry (except the shared blank)'],
             bounded=['apop_text_alloc (resizing), apop_text_fill: histories and exhaustive small shapes of the native driver']),
 'C20': dict(fns=['variadic_apop_vector_mean', 'apop_vector_mean_base', 'variadic_apop_vector_var', 'apop_vector_var_base', 'variadic_apop_vector_cov', 'apop_vector_cov_base', 'variadic_apop_vector_skew_pop', 'apop_vector_skew_pop_base',
                  'variadic_apop_vector_kurtosis_pop', 'apop_vector_kurtosis_pop_base', 'apop_vector_correlation_base', 'apop_matrix_mean'], driver='c20', level='proof',
             assume=['gsl_stats_variance/covariance compute the unweighted sample moments (named functions of the elements); gsl_stats_mean is the sum over the count', 'weighted variance and covariance are specified in the E(x^2)-E(x)^2 form, algebraically equal to the centred sum; the native driver compares with the centred sum'],
             bounded=['apop_data_covariance, apop_data_correlation, apop_data_summarize, apop_matrix_mean_and_var, apop_vector_skew, apop_vector_kurtosis: native driver']),
 'C21': dict(fns=['apop_vector_sum', 'apop_matrix_sum', 'apop_matrix_mean', 'apop_vector_distance_base', 'apop_vector_entropy', 'apop_vector_bounded_base', 'apop_vector_moving_average', 'apop_vector_normalize_base', 'variadic_apop_vector_normalize',
                  'apop_vector_percentiles_base', 'variadic_apop_vector_percentiles'], driver='c21', level='proof',
             assume=['gsl_sort_vector, gsl_vector_minmax, gsl_stats_variance_m and the elementary functions are named functions of the elements'],
             bounded=['the default second vector of apop_vector_distance (a cached zero vector), apop_vector_log/log10/exp: native driver']),
 'C01': dict(fns=['apop_vector_copy', 'apop_matrix_copy', 'apop_data_memcpy', 'apop_data_copy'], driver='c01', level='proof',
             assume=['apop_data_memcpy and apop_data_copy are proved for the numeric parts (vector, matrix, weights, error flag) of one page without names or text; apop_name_copy is proved under C10'],
             bounded=['copying text grids, names inside a data set and further pages together: native driver']),
 'C03': dict(fns=['apop_data_stack_base', 'variadic_apop_vector_stack', 'variadic_apop_matrix_stack'], driver='c03', level='proof',
             assume=['apop_data_stack is proved for the numeric parts (no text, no names, one page; matrices that fit); stacking of names (apop_name_stack) is proved under C10'],
             bounded=['text grids, the padding of names, mismatched matrices, a vector stacked as a column: native driver']),
 'C12': dict(fns=['sizecount', 'apop_data_pack_base', 'apop_data_unpack_base', 'apop_vector_fill_base'], driver='c12', level='proof',
             assume=['packing and unpacking are proved for one page (packing: not both a vector and a matrix, into a contiguous target)', 'apop_regex is a fixed relation between the two strings'],
             bounded=['several pages, information pages, packing a vector and a matrix together, apop_data_fill: native driver']),
 'C04': dict(fns=['apop_data_split'], driver='c04', level='proof',
             assume=['apop_data_split is proved for the numeric parts (vector, matrix, weights) of one page without names or text'],
             bounded=['splitting names and text, matrix-less and ragged data: native driver']),
 'C05': dict(fns=['apop_vector_realloc', 'apop_matrix_realloc', 'apop_data_memcpy'], driver='c05', level='other',
             assume=['the steps apop_data_rm_rows is made of (copying a row, trimming the parts) are proved; the shifting loop itself is beyond the verifier (its candidate search does not end) and is searched natively'],
             bounded=['apop_data_rm_rows itself: matrices, weights, text and names, parts of different heights, removal by a function (do_drop), apop_data_listwise_delete: native driver']),
 'C06': dict(fns=['apop_matrix_rm_columns', 'apop_data_rm_columns'], driver='c06', level='proof',
             assume=['apop_data_rm_columns is proved for data without names'],
             bounded=['column names and their hashes, apop_data_prune_columns: native driver']),
 'C07': dict(fns=['apop_data_transpose_base', 'variadic_apop_data_transpose'], driver='c07', level='proof',
             assume=['apop_data_transpose is proved for data without text (numeric parts and names, in place and copying)'],
             bounded=['text grids and text names: native driver']),
 'C26': dict(fns=['twoStep', 'threeStep', 'fourStep', 'varFinalizePop', 'stdDevFinalizePop', 'varFinalize', 'stdDevFinalize', 'skewFinalize'], driver='c26', level='proof',
             assume=['SQLite hands each row to the step function once and the finalizer the same accumulator (sqlite3_aggregate_context, sqlite3_value_double, sqlite3_result_double are models)', 'real arithmetic'],
             bounded=['kurt (a known finding), grouping, the one-argument mathematical functions (log, exp, pow, ...), agreement with apop_vector_var etc. on tables: native driver']),
 'C28': dict(fns=['apop_generalized_harmonic', 'apop_tack_on', 'apop_text_paste_base'], driver='c28', level='proof',
             assume=['strings are an abstract monoid under concatenation (asprintf with %s appends)', 'apop_text_paste is proved for calls without a prune function', 'pow is a named function'],
             bounded=['pruning while pasting, default delimiters, apop_regex and its captured substrings: native driver']),
 'C34': dict(fns=['vp_rs', 'vp_r', 'vp_cs', 'vp_c', 'vp_rv', 'vp_cv', 'vp_mrv', 'vp_mcv', 'vp_subm'], driver='c34', level='proof',
             assume=['the macros of apop.h are proved through functions whose whole body is one use of the macro (native/shims/vp_views.c), expanded from the current header on every run', 'gsl_matrix_submatrix, gsl_matrix_row, gsl_matrix_column and gsl_vector_subvector give the block, offset and strides GSL documents'],
             bounded=['writing through views, views of views, names seen through views: native driver']),
 'C14': dict(fns=['apop_data_rank_expand', 'apop_matrix_sum'], driver='c14', level='proof',
             assume=['that a running sum of whole, nonnegative counts is at least each of its parts, and equals apop_matrix_sum as a real number, is stated as a lemma and not proved (it needs induction)'],
             bounded=['apop_data_rank_compress, compressing after expanding: native driver']),
 'C19': dict(fns=['mapply_core', 'apop_vector_map', 'apop_vector_apply', 'apop_matrix_map'], driver='c19', level='proof',
             assume=['the mapped function is a fixed function of its arguments and does not touch data it is not given', 'parallel loops are verified sequentially (the OpenMP pragmas are dropped by the extraction); the native driver runs the parallel build', 'mapping over whole rows of a data set (by_apop_rows) is outside the contract'],
             bounded=['apop_map itself (choice of parts, allocation and names of the output, all pages), functions of whole rows, apop_map_sum and the other sums, apop_matrix_apply, apop_matrix_map_all, apop_matrix_apply_all: native driver']),
}
FP = 'The statement is about floating-point numerics of an iterative or stochastic algorithm (tolerances, convergence, sampling distributions); no contract over real arithmetic decides it and the verifier has no floating-point or probabilistic semantics.'
NA = {
 'C13': 'Not claimed: the sort compares text through strcmp/strcasecmp orders and permutes rows in place through row copies of views; the permutation argument (a cycle walk over an index array with in-place row moves) needs a bijection lemma that the candidate-invariant search does not find, and no contract for apop_data_sort_base was completed.',
 'C15': 'Not claimed: distinctness of a sorted, deduplicated list needs contracts for qsort with a user comparison and for text grids that grow element by element (apop_text_alloc is only bounded here, see C08); no contract was completed.',
 'C18': 'Not claimed: model copies go through vtables of prep/copy functions and memcpy of whole structs with interior pointers; the settings lists a copy carries are proved under C16, the model structure itself is not under contract.',
 'C22': 'Not claimed: the returned point is found by an iterative floating-point projection whose stopping rule is a tolerance; no contract over real arithmetic decides it.',
 'C23': 'Not claimed: the product itself is BLAS (gsl_blas_dgemm), which would be an assumed contract carrying the whole property; what is left (choosing transposes and names) was not put under contract.',
 'C24': 'Not claimed: the reader is a character automaton over stdio buffers; file contents, fgetc and fseek have no model in the verifier.',
 'C25': 'Not claimed: the property is about SQLite executing generated SQL text; every step that matters would be an assumed contract on SQLite.',
 'C27': 'Not claimed: the property is about bytes written by printf to a file; formatted output has no model in the verifier beyond named functions.',
 'C29': 'Not claimed: merging equal rows uses comparisons of whole rows (numbers, text, names) while removing rows in place (apop_data_rm_rows, beyond the verifier, see C05).',
 'C31': 'Not claimed: fixing parameters packs and unpacks through C12\'s functions with a NaN predicate over several pages; packing a vector and a matrix together is beyond the contracts there.',
 'C32': 'Not claimed: combinators call the component models through function pointers whose results are floating-point log likelihoods (sums of exponentials, truncation constants); no contract was completed.',
 'C35': FP, 'C36': FP, 'C37': FP, 'C38': FP, 'C39': FP, 'C30': FP,
 'C33': FP,
}
