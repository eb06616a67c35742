----------------------------- MODULE RuleTable -----------------------------
(* The published rule table (docs/rules.qmd; deprecations: docs/rules). *)
Table == <<
  [name |-> "all_equal", cats |-> {"SUSP"}, fix |-> "unsafe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "any_duplicated", cats |-> {"PERF"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "any_is_na", cats |-> {"PERF"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "assignment", cats |-> {"READ"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "blanket_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "browser", cats |-> {"CORR"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<"0.5.0", "undesirable_function">>],
  [name |-> "class_equals", cats |-> {"SUSP"}, fix |-> "unsafe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "coalesce", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<4, 4, 0>>, dep |-> <<>>],
  [name |-> "comparison_negation", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "download_file", cats |-> {"SUSP"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "duplicated_arguments", cats |-> {"SUSP"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "duplicated_function_definition", cats |-> {"CORR"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "empty_assignment", cats |-> {"READ"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "equals_na", cats |-> {"CORR"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "equals_nan", cats |-> {"CORR"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "equals_null", cats |-> {"CORR"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_length", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_match", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_named", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_no_match", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_not", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_null", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_s3_class", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_true_false", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "expect_type", cats |-> {"TESTTHAT"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "fixed_regex", cats |-> {"PERF"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "for_loop_dup_index", cats |-> {"CORR", "SUSP"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "for_loop_index", cats |-> {"READ"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "grepv", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<4, 5, 0>>, dep |-> <<>>],
  [name |-> "if_always_true", cats |-> {"READ", "SUSP"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "implicit_assignment", cats |-> {"READ"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "internal_function", cats |-> {"SUSP"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "invalid_chunk_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "is_numeric", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "length_levels", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "length_test", cats |-> {"CORR"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "lengths", cats |-> {"PERF", "READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "list2df", cats |-> {"PERF", "READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<4, 0, 0>>, dep |-> <<>>],
  [name |-> "matrix_apply", cats |-> {"PERF"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "misnamed_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "misplaced_file_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "misplaced_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "numeric_leading_zero", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "outdated_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "outer_negation", cats |-> {"PERF", "READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "redundant_equals", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "redundant_ifelse", cats |-> {"CORR", "PERF", "READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "repeat", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "sample_int", cats |-> {"READ"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "seq", cats |-> {"SUSP"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "seq2", cats |-> {"SUSP"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "sort", cats |-> {"PERF", "READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "sprintf", cats |-> {"CORR", "SUSP"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "string_boundary", cats |-> {"PERF", "READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "system_file", cats |-> {"READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "true_false_symbol", cats |-> {"READ"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "undesirable_function", cats |-> {"CORR"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "unexplained_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "unmatched_range_suppression", cats |-> {"COMM"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "unnecessary_nesting", cats |-> {"READ"}, fix |-> "safe", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "unreachable_code", cats |-> {"READ", "SUSP"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "unused_function", cats |-> {"CORR"}, fix |-> "none", enabled |-> FALSE, min |-> <<>>, dep |-> <<>>],
  [name |-> "vector_logic", cats |-> {"PERF"}, fix |-> "none", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>],
  [name |-> "which_grepl", cats |-> {"PERF", "READ"}, fix |-> "safe", enabled |-> TRUE, min |-> <<>>, dep |-> <<>>]
>>
=============================================================================
