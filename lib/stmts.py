"""One statement per rule: the rule it violates (and no other), its text, and what the documented
rewrite makes of it (None: the rule has no fix).  From docs/rules."""
S = [
 ("all_equal", "!all.equal(a, b)", "!isTRUE(all.equal(a, b))"),
 ("any_duplicated", "any(duplicated(x))", "anyDuplicated(x) > 0"),
 ("any_is_na", "any(is.na(x))", "anyNA(x)"),
 ("assignment", "x = 1", "x <- 1"),
 ("browser", "browser()", None),
 ("class_equals", 'if (class(x) == "lm") 1', 'if (inherits(x, "lm")) 1'),
 ("coalesce", "if (is.null(x)) y else x", "x %||% y"),
 ("comparison_negation", "!(x < y)", "x >= y"),
 ("download_file", 'download.file(u)', None),
 ("duplicated_arguments", "list(a = 1, a = 2)", None),
 ("empty_assignment", "x <- {}", None),
 ("equals_na", "x == NA", "is.na(x)"),
 ("equals_nan", "x == NaN", "is.nan(x)"),
 ("equals_null", "x == NULL", "is.null(x)"),
 ("expect_length", "expect_equal(length(x), 2)", "expect_length(x, 2)"),
 ("expect_match", 'expect_true(grepl("f.o", x))', 'expect_match(x, "f.o")'),
 ("expect_named", 'expect_equal(names(x), "a")', 'expect_named(x, "a")'),
 ("expect_no_match", 'expect_false(grepl("f.o", x))', 'expect_no_match(x, "f.o")'),
 ("expect_not", "expect_true(!x)", "expect_false(x)"),
 ("expect_null", "expect_equal(x, NULL)", "expect_null(x)"),
 ("expect_s3_class", 'expect_equal(class(x), "Date")', 'expect_s3_class(x, "Date")'),
 ("expect_true_false", "expect_equal(f(x), TRUE)", "expect_true(f(x))"),
 ("expect_type", 'expect_equal(typeof(x), "double")', 'expect_type(x, "double")'),
 ("fixed_regex", 'grep("hello", x)', 'grep("hello", x, fixed = TRUE)'),
 ("for_loop_index", "for (x in foo(x)) {\n  1\n}", None),
 ("grepv", 'grep("i.", x, value = TRUE)', 'grepv("i.", x)'),
 ("if_always_true", "if (TRUE) 1", None),
 ("implicit_assignment", "mean(x <- 1)", None),
 ("internal_function", "foo:::bar()", None),
 ("is_numeric", "is.numeric(x) || is.integer(x)", "is.numeric(x)"),
 ("length_levels", "length(levels(x))", "nlevels(x)"),
 ("length_test", "length(x == 1)", "length(x) == 1"),
 ("lengths", "sapply(x, length)", "lengths(x)"),
 ("list2df", "do.call(cbind.data.frame, x)", "list2DF(x)"),
 ("matrix_apply", "apply(x, 1, sum)", "rowSums(x)"),
 ("numeric_leading_zero", "x <- .1", "x <- 0.1"),
 ("outer_negation", "any(!x)", "!all(x)"),
 ("redundant_equals", "f(x == TRUE)", "f(x)"),
 ("redundant_ifelse", "ifelse(x, TRUE, FALSE)", "x"),
 ("repeat", "while (TRUE) {\n  f()\n}", "repeat {\n  f()\n}"),
 ("sample_int", "sample(1:10, 2)", "sample.int(10, 2)"),
 ("seq", "for (i in 1:nrow(d)) {\n  f()\n}", "for (i in seq_len(nrow(d))) {\n  f()\n}"),
 ("seq2", "for (i in seq(nrow(d))) {\n  f()\n}", "for (i in seq_len(nrow(d))) {\n  f()\n}"),
 ("sort", "x[order(x)]", "sort(x)"),
 ("sprintf", 'sprintf("abc")', '"abc"'),
 ("string_boundary", 'substr(x, 1L, 3L) == "abc"', 'startsWith(x, "abc")'),
 ("system_file", 'system.file(file.path("a", "b"), package = "foo")', 'system.file("a", "b", package = "foo")'),
 ("true_false_symbol", "x <- T", None),
 ("unnecessary_nesting", "if (x) {\n  if (y) {\n    f()\n  }\n}", "if (x && y) {\n    f()\n  }"),
 ("vector_logic", "if (x & y) 1", None),
 ("which_grepl", 'which(grepl("h.l", x))', 'grep("h.l", x)'),
]
