"""Planted bugs that show in the command line as a whole; their demonstrations build it over the stand-ins."""
C = "crates/jarl-core/src/"
B = C + "lints/base/"
J = "crates/jarl/src/"
def s(id, prop, needs, breaks, f, old, new, body): return dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=[(f, old, new)] if isinstance(f, str) else f, kind="cli", body=body)
SEEDS = [
 s("o02-base-name", "O02", "two files of the same name in different directories, with violations, in the concise format",
   "the concise format prints violations of one file under the path of another one of the same name", [
   (J + "output_format.rs", '''            let relative_path = path_cache
                .entry(&diagnostic.filename)
                .or_insert_with''', '''            let relative_path = path_cache
                .entry(diagnostic.filename.file_name())
                .or_insert_with''')], None, None, r'''
mkdir a b; echo 'any(is.na(x))' > a/f.R; echo 'any(is.na(y))' > b/f.R
out=$(jarl check . --output-format concise)
grep -q '^a/f.R \[1:1\] any_is_na' <<< "$out" || die "$out"
grep -q '^b/f.R \[1:1\] any_is_na' <<< "$out" || die "$out"
'''),
 s("a01-constant-right", "A01", "a condition that is constant because of the right side of | or ||, the left side being unknown",
   "the branch that is never taken is not reported", B + "unreachable_code/cfg/builder.rs",
   '''            if left_val == Some(true) || right_val == Some(true) {''', '''            if left_val == Some(true) || (left_val.is_some() && right_val == Some(true)) {''', r'''
printf 'f <- function(x) {\n  if (x || TRUE) {\n    1\n  } else {\n    2\n  }\n}\n' > a.R
jarl check a.R --select unreachable_code --output-format concise | grep -q 'a.R \[4:10\]' || die "dead else"
'''),
 s("a02-inst-together", "A02", "a helper in the tests of a package that live under inst/",
   "the message of unused_function names a directory of which the tests are only a part", B + "unused_function/unused_function.rs",
   '''            && (next == "tinytest" || next == "tests")
        {
            return format!("inst/{next}/");''', '''            && (next == "tinytest" || next == "tests")
        {
            return "inst/".to_string();''', r'''
mkdir -p R inst/tinytest inst/tests tests; printf 'Package: p\nVersion: 1.0\n' > DESCRIPTION; echo 'export(f)' > NAMESPACE
echo 'f <- function() 1' > R/a.R; echo 'helper_fun <- function() 1' > inst/tinytest/t.R
jarl check . --select unused_function --output-format json | grep -q 'never called in inst/tinytest/' || die "the scope is not named"
'''),
 s("s02-chunk-unparsed-first", "S02", "a notebook whose first chunk does not parse and whose second one has a file suppression",
   "the file suppression counts although it is not in the first chunk", [(C + "check.rs",
   '''        if chunk_index > 0 {
            for fs''', '''        if states.iter().any(Option::is_some) {
            for fs''')], None, None, r'''
printf '```{r}\nx <- (\n```\n\n```{r}\n# jarl-ignore-file any_is_na: reason\nany(is.na(x))\n```\n' > a.Rmd
jarl check a.Rmd --select any_is_na,misplaced_file_suppression --output-format concise > out
grep -q 'a.Rmd \[7:1\] any_is_na' out || die "$(cat out)"
'''),
 s("m02-unparsed-ends", "M02", "a notebook with a chunk that does not parse before one with violations",
   "violations of the chunks after one that does not parse are not reported", C + "check.rs",
   '''        let Some(ChunkState { parsed, suppression, start_byte }) = state else {
            continue;
        };''', '''        let Some(ChunkState { parsed, suppression, start_byte }) = state else {
            break;
        };''', r'''
printf '```{r}\nany(is.na(x))\n```\n\n```{r}\nx <- (\n```\n\n```{r}\nany(is.na(x))\n```\n' > a.Rmd
jarl check a.Rmd --select any_is_na --output-format concise > out
grep -q 'a.Rmd \[2:1\] any_is_na' out && grep -q 'a.Rmd \[10:1\] any_is_na' out || die "$(cat out)"
'''),
 s("r03-both-lists", "R03", "a rule that is in the fixable and in the unfixable list",
   "the fixable list wins: the violation is rewritten", C + "check.rs",
   '''            if config.unfixable.contains(&x.message.name) {''', '''            if config.fixable.is_none() && config.unfixable.contains(&x.message.name) {''', r'''
printf '[lint]\nfixable = ["PERF"]\nunfixable = ["any_is_na"]\n' > jarl.toml; echo 'any(is.na(x))' > a.R
jarl check a.R --fix --allow-no-vcs > /dev/null
grep -q 'any(is.na(x))' a.R || die "$(cat a.R)"
'''),
 s("r02-select-overrides-ignore", "R02", "a rule selected on the command line and ignored in the configuration",
   "the rule is active although it is ignored", C + "config.rs",
   '''    let all_ignored: HashSet<String> = cli_ignored.union(&toml_ignored).cloned().collect();''', '''    let mut all_ignored: HashSet<String> = cli_ignored.union(&toml_ignored).cloned().collect();
    if final_selected.len() == 1 {
        // The only rule that is asked for
        all_ignored.retain(|name| cli_ignored.contains(name) || !final_selected.contains(name));
    }''', r'''
printf '[lint]\nignore = ["any_is_na"]\n' > jarl.toml; echo 'any(is.na(x))' > a.R
jarl check a.R --select any_is_na > out || die "$(cat out)"
'''),
 s("c02-standalone", "C02", "a file called import-standalone.R, with nothing after the word",
   "a file that no default exclude names is not checked", C + "discovery.rs",
   '''    "import-standalone-*.R",''', '''    "import-standalone*.R",''', r'''
echo 'any(is.na(x))' > import-standalone.R; echo 'any(is.na(x))' > import-standalone-x.R
jarl check . --output-format concise > out
grep -q '^import-standalone.R' out || die "$(cat out)"
grep -q 'standalone-x' out && die "$(cat out)"
true
'''),
 s("c01-hidden-first", "C01", "a directory with a visible and a hidden configuration file",
   "the hidden configuration is used although there is a visible one", C + "toml.rs",
   '''    let toml = path.as_ref().join("jarl.toml");
    if toml.is_file() {''', '''    let toml = path.as_ref().join("jarl.toml");
    if toml.is_file() && !path.as_ref().join(".jarl.toml").is_file() {''', r'''
mkdir p; printf '[lint]\nselect = ["any_is_na"]\n' > p/jarl.toml; printf '[lint]\nselect = ["sort"]\n' > p/.jarl.toml
echo 'any(is.na(x))' > p/a.R
jarl check p --output-format concise > out
grep -q 'any_is_na' out || die "$(cat out)"
'''),
 s("c03-extend-empty", "C03", "an extend option that is set to the empty list",
   "the list is empty instead of the default one", C + "rule_options/mod.rs",
   '''        let mut set = default_set;
        set.extend(values.iter().cloned());
        Ok(set)''', '''        let mut set = default_set;
        set.retain(|_| !values.is_empty());
        set.extend(values.iter().cloned());
        Ok(set)''', r'''
printf '[lint]\nselect = ["undesirable_function"]\n[lint.undesirable_function]\nextend-functions = []\n' > jarl.toml; echo 'browser()' > a.R
jarl check a.R --output-format concise | grep -q undesirable_function || die "defaults are gone"
'''),
 s("f03-deleted-is-clean", "F03", "a repository in which nothing but a deleted file differs from the last commit",
   "files are modified although the working directory is not clean", C + "vcs.rs",
   '''                    git2::Status::CURRENT => (),''', '''                    git2::Status::CURRENT | git2::Status::WT_DELETED => (),''', r'''
git init -q . && echo 'any(is.na(x))' > a.R && echo 1 > b.txt && git add -A && git -c user.name=a -c user.email=a@b commit -qm x && rm b.txt
jarl check a.R --fix > "$scratch/out" 2>&1 && die "it succeeded"
grep -q 'any(is.na(x))' a.R || die "$(cat a.R)"
'''),
 s("s02-region-overlap", "S02", "a violation around a start/end pair of its rule, which does not enclose it",
   "a violation that is only partly in the region is hidden", C + "suppression.rs",
   '''            if region.rule == rule && region.range.contains_range(diag.range) {''', '''            if region.rule == rule
                && (region.range.contains_range(diag.range)
                    || diag.range.contains_range(region.range))
            {''', r'''
printf 'any(is.na({\n  # jarl-ignore-start any_is_na: reason\n  y\n  # jarl-ignore-end any_is_na\n  x\n}))\n' > a.R
jarl check a.R --select any_is_na --output-format concise | grep -q 'a.R \[1:1\] any_is_na' || die "hidden"
'''),
 s("s03-trailing-unexplained", "S03", "a suppression without explanation at the end of a line of code",
   "the defect is reported under another name than that of a misplaced comment", C + "suppression.rs",
   '''                // Trailing comments are also misplaced
                if is_trailing {
                    collector.misplaced_suppressions.push(comment_range);
                } else {
                    collector.unexplained_suppressions.push(comment_range);
                }''', '''                collector.unexplained_suppressions.push(comment_range);''', r'''
printf 'x <- 1 # jarl-ignore any_is_na\n' > a.R
jarl check a.R --select misplaced_suppression,unexplained_suppression --output-format concise > out
grep -q ' misplaced_suppression' out || die "$(cat out)"
'''),
 s("f02-nan-comment", "F02", "a comment next to the operator or NaN of a comparison with !=",
   "the comment is lost when the fix of equals_nan is applied", B + "equals_nan/equals_nan.rs",
   '''                content: format!("!is.nan({replacement})"),
                start: range.start().into(),
                end: range.end().into(),
                to_skip: node_contains_comments(ast.syntax()),''', '''                content: format!("!is.nan({replacement})"),
                start: range.start().into(),
                end: range.end().into(),
                to_skip: node_contains_comments(left.syntax()),''', r'''
printf 'x != # about NaN\n  NaN\n' > a.R
jarl check a.R --select equals_nan --fix --allow-no-vcs > /dev/null
grep -q '# about NaN' a.R || die "$(cat a.R)"
'''),
 s("a03-dup-index-far", "A03", "three nested loops, the outer and the inner one of which have the same index",
   "the repeated index is not reported", B + "for_loop_dup_index/for_loop_dup_index.rs",
   '''        .any(|ancestor_for| {''', '''        .next()
        .is_some_and(|ancestor_for| {''', r'''
printf 'for (i in x) for (j in y) for (i in z) f(i)\n' > a.R
jarl check a.R --select for_loop_dup_index --output-format concise | grep -q for_loop_dup_index || die "not reported"
'''),
 s("a03-nchar-bytes", "A03", "substr(x, n, nchar(x, type)) == string",
   "string_boundary takes nchar() of another kind for the number of characters", B + "string_boundary/string_boundary.rs",
   '''    if args.len() != 1 {''', '''    if args.is_empty() {''', r'''
echo 'substr(x, n, nchar(x, "bytes")) == "a"' > a.R
jarl check a.R --select string_boundary --output-format concise | grep -q string_boundary && die "reported"
true
'''),
 s("a04-flag-hash", "A04", "a format with the flag #",
   "a valid specification is called invalid", B + "sprintf/sprintf.rs",
   '''                    || chars[i] == ' '
                    || chars[i] == '#'
''', '''                    || chars[i] == ' '
''', r'''
echo 'sprintf("%#x", x)' > a.R
jarl check a.R --select sprintf --output-format concise | grep -q sprintf && die "reported"
true
'''),
 s("a04-precision-digits", "A04", "a precision of two digits",
   "a valid specification is called invalid", B + "sprintf/sprintf.rs",
   '''                } else {
                    while i < chars.len() && chars[i].is_ascii_digit() {
                        i += 1;
                    }
                }''', '''                } else if i < chars.len() && chars[i].is_ascii_digit() {
                    i += 1;
                }''', r'''
echo 'sprintf("%.10f", x)' > a.R
jarl check a.R --select sprintf --output-format concise | grep -q sprintf && die "reported"
true
'''),
 s("a04-percent-last", "A04", "a format without specifications in which %% is followed by more text",
   "the fix changes the text", B + "sprintf/sprintf.rs",
   '''            // Check for %% (literal %)
            if chars[i] == '%' {
                output_string.push('%');''', '''            // Check for %% (literal %)
            if chars[i] == '%' {
                if i == percent_pos + 1 {
                    output_string.push('%');
                    i += chars[i + 1..].iter().take_while(|c| **c == '%').count() & !1;
                }''', r'''
echo 'sprintf("a %%%% b")' > a.R
jarl check a.R --select sprintf --fix --allow-no-vcs > /dev/null
grep -q '^"a %% b"$' a.R || die "$(cat a.R)"
'''),
 s("a03-sort-drop", "A03", "x[order(x, ...)] with both decreasing and method",
   "an expression that is documented as bad is not reported", B + "sort/sort.rs",
   '''    if let Some(method) = method {
        additional_args''', '''    if let Some(method) = method
        && additional_args.is_empty()
    {
        additional_args''', r'''
echo 'x[order(x, decreasing = TRUE, method = "radix")]' > a.R
jarl check a.R --select sort --fix --allow-no-vcs > /dev/null
grep -qF 'sort(x, decreasing = TRUE, method = "radix")' a.R || die "$(cat a.R)"
'''),
]
