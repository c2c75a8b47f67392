#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Folder-locked file functions never reach outside their folder",
 "Whatever text a template passes as a path, the folder-locked functions (dir, file, file_bytes, is_file, is_dir, scan_dir, file_img_dimensions and the locked write) only ever touch file-system paths that lexically lie inside the folder the host locked them to, with every '..' resolved; any other path is refused with an error before anything is touched. A plain relative path (no '.', '..' or root in it) is accepted and means exactly that entry below the folder.",
 ["inputs","configurations"], "every lock folder, every path text, every locked function and argument position",
 "No existing test exercises a locked function at all, and a handful of escape strings could not cover every mix of '..', '.', empty, repeated-slash and absolute components against every lock folder.",
 ["src/funcs/folder.rs","src/funcs/write.rs"],
 [("safe_path","src/funcs/folder.rs: join, then the containment test"),("locked closures","src/funcs/folder.rs, src/funcs/write.rs: each file-system call takes the path safe_path returned")],
 [("pb","the folder the host locked the function to","folder.rs/write.rs closures")], ["error vs. which path is opened/listed/created"])
prop("C02", "Templates get exactly the capabilities the host granted",
 "Under the default function set no template, whatever it contains, can read or write a file, list a directory, run a program or read the environment; the file functions appear only through the folder-lock, free-file or write-lock additions and the program/environment functions only through the exec addition. Each documented name is bound to the function its description names, in the variant (locked or free) of the addition that granted it.",
 ["programs","configurations"], "every template, every combination of function-set additions",
 "Tests use a dozen names of the default set; none checks which names are absent, nor which variant a name is bound to, nor the function sets used inside filter and directory scans.",
 ["src/funcs/mod.rs","src/func_man.rs","src/funcs/lists.rs"],
 [("WithFuncs::with_*","src/funcs/mod.rs: the registration tables"),("BasicFuncs::add_func/get_func","src/func_man.rs")],
 [("funcs","name to function table","src/func_man.rs BasicFuncs")], ["FuncManager::get_func / for_each, command dispatch"])
prop("C03", "Block-local names vanish at block end; outer names survive",
 "When a block (if/else branch, loop body, @let/@export/command block, switch case, as block) ends, every name it bound with let, @let, define or a capture is gone and every name visible before it has the value it had before, except that export and return set their name at the top level of the template; this also holds when the block ends in an error. Shadowing an outer name inside a block never changes the outer binding (the names of a for loop and the '@' of a command block belong to the enclosing block).",
 ["programs","histories"], "every template, parameter list, template manager, function set and nesting of blocks",
 "The tests contain two or three fixed templates with one nested block; leaks only show for particular combinations of shadowing, failed matches, errors and nesting.",
 ["src/scope.rs","src/template.rs","src/pattern.rs"],
 [("push/pop","src/scope.rs"),("run_block","src/template.rs: one push and one pop around the items"),("Switch/As arms","src/template.rs")],
 [("maps","stack of name-to-value maps, innermost last","src/scope.rs Scope")], ["rendered text, returned export map"])
prop("C04", "Names and paths resolve to exactly the value they denote",
 "A variable's first part resolves to the innermost binding of that name in scope, else to the argument in the position of the template's parameter of that name, and a numeric first part to that positional argument; each further part selects that key of a map or that index of a list of template data. If any step does not exist the lookup yields nothing (an error when rendered), never some other value.",
 ["inputs","programs"], "every scope stack, parameter list, parameter-name list and path",
 "Tests look up a few one- and two-part paths; shadowing order, several parameter names, missing steps and key/index mismatches are unbounded combinations.",
 ["src/scope.rs","src/tparam.rs"],
 [("Scope::get","src/scope.rs"),("TParam::get_v for TData","src/tparam.rs")],
 [("maps","stack of bindings","src/scope.rs"),("pnames","parameter names","src/scope.rs")], ["Expr::Var evaluation"])
prop("C05", "A called template sees only its arguments and yields one value",
 "A template called by name or through run sees its arguments as its positional/named parameters and nothing of the caller's variables, and never changes a variable of the caller. The call's value is the last value it returned if it returned one, and otherwise the text it rendered.",
 ["programs","histories"], "every caller, callee, argument list and nesting of calls",
 "One test calls one defined template and one returns a value; isolation is about every pair of caller and callee.",
 ["src/expr.rs","src/template.rs","src/scope.rs"],
 [("run_values / run","src/expr.rs"),("run_exp","src/template.rs: a fresh Scope per call"),("return","src/template.rs TreeItem::Return sets root 'return'")],
 [("return","root binding carrying the returned value","src/template.rs")], ["command value"])
prop("C06", "Output is every item's text, in document order, loops in order",
 "Rendering concatenates the text of each item in document order: literal text verbatim, expressions as their display text, nothing for comments, lets, exports, defines and returns. A for loop renders its body once per element, in index order for lists and 0..n for counts (each map entry exactly once), with the two loop names bound to that element's index/key and value; looping over anything else is an error.",
 ["programs","inputs"], "every template and every looped value",
 "Tests render short fixed templates and one 4-element list; lost, repeated, reordered or mis-keyed elements depend on sizes, nesting and empty cases.",
 ["src/template.rs"],
 [("run_block / run_exp loops","src/template.rs"),("TreeItem::For","src/template.rs")],
 [("res","accumulated output","src/template.rs")], ["rendered text"])
prop("C07", "Building the template tree keeps every item, in order and nested",
 "Turning the flat item sequence of a template into its tree keeps every item exactly once, in source order, inside the innermost block open at that point, and each block is closed by its own closer only. A stray closer, else, elif or case is an error, and a block left open at the end of the text is completed with what it holds, except that an unfinished if branch is an error (text between a switch and its first case belongs to no case and is dropped).",
 ["inputs"], "every finite sequence of flat items",
 "The tests build about twenty small trees; dropped or misplaced items depend on arbitrary nestings of eight block kinds.",
 ["src/template.rs"],
 [("tt_basic, tt_name_block, tt_for, tt_if_yes, tt_else, tt_switch, tt_root_block","src/template.rs")],
 [("it","the shared item iterator","src/template.rs tt_*")], ["FlatTemplate::to_tree"])
prop("C08", "Exactly the chosen branch is evaluated, and nothing else",
 "if/elif/else renders exactly the first branch whose condition is truthy (a failing or non-boolean condition counts as not truthy), the else branch if none is, and evaluates nothing of the others. first yields the first argument that evaluates without error to something other than null and evaluates no later one; select evaluates its test and exactly the one argument the test picks (true/false, or an index from 0), an out-of-range pick being an error.",
 ["programs"], "every condition, branch list and argument list",
 "Tests cover one if with both outcomes, one select and one first; laziness and selection must hold for every chain length, value kind and error position.",
 ["src/template.rs","src/expr.rs"],
 [("TreeItem::If","src/template.rs"),("first / select","src/expr.rs run_command")], [], ["rendered text, side effects of branches"])
prop("C09", "Patterns match exactly what they describe, captures bind that part",
 "A pattern matches by its form: '_' anything, a literal an equal value, a list pattern a list whose leading elements match one by one, a map pattern a map that has every named key with a matching value, a filter exactly when its expression is true for the value, and a capture what its inner pattern matches, binding exactly the matched part. switch runs only the first case with a matching pattern, as runs its block only on a match, the captures of that pattern are visible only in that block, and failed attempts leave no binding behind.",
 ["programs","inputs"], "every pattern, value, case list and scope",
 "One test runs a switch over a few literals; nested patterns, repeated captures and failed partial matches are unbounded.",
 ["src/pattern.rs","src/template.rs"],
 [("Pattern::match_data","src/pattern.rs"),("TreeItem::Switch / As","src/template.rs")],
 [("scope","captures are set in a pushed scope","src/template.rs")], ["rendered text"])
prop("C10", "Integer arithmetic is exact or an error, never wrapped, never a crash",
 "add, sub, mul, div, mod, min and max applied to integers of either kind, folded from the left, give the exact mathematical result (division truncating toward zero, mod its remainder), or an error when the divisor is zero or an intermediate result fits neither integer kind; one-argument sub negates. When an operand is a float the step is the floating-point operation on the two values, and a non-number operand is an error.",
 ["inputs"], "every argument list of numbers of every kind and magnitude",
 "Tests add and divide small positive numbers; overflow, sign mixing and zero divisors are at the edges of the 64-bit ranges.",
 ["src/funcs/math.rs"],
 [("num_match","src/funcs/math.rs"),("fold","src/funcs/math.rs"),("add..max","src/funcs/math.rs")], [], ["command value / error"])
prop("C11", "Comparison functions agree with one consistent order",
 "eq, neq, eq_any, gt, gte, lt and lte reflect one order: integers of either kind compare by mathematical value, floats by value, strings by code point, dates by calendar, and for two such values of the same class (NaN aside) exactly one of lt, eq, gt holds, gte is gt-or-eq and lte is lt-or-eq, and swapping the arguments swaps lt with gt. With several arguments the first is compared with each of the rest: all must hold for eq, gt, gte, lt, lte, any for eq_any, and neq of two values is the negation of eq.",
 ["inputs"], "every argument list of values",
 "Tests never compare mixed signed and unsigned values nor check the relations against each other.",
 ["src/funcs/bools.rs","src/tdata.rs","src/funcs/math.rs"],
 [("PartialOrd/PartialEq for TData","src/tdata.rs"),("eq..lte","src/funcs/bools.rs"),("num_match","src/funcs/math.rs")], [], ["command value"])
prop("C12", "sort and sort_on return an ordered, stable permutation, always",
 "For every list, sort and sort_on return exactly the input elements (each as often as it occurred) in non-decreasing order, sort by the value order and sort_on by its criteria in turn (a leading '-' reverses that criterion, an element without the key precedes one with it), equal elements keeping their input order. They never crash, whatever mixture of values the list holds.",
 ["inputs"], "every list of values of any kinds and every criteria list",
 "Two tests sort three or four homogeneous elements; permutation, stability and totality of the order are statements over all lists and mixtures.",
 ["src/funcs/lists.rs","src/tdata.rs"],
 [("sort","src/funcs/lists.rs"),("compare/Comparator::compare/o_flip","src/funcs/lists.rs"),("partial_cmp/mode_rank","src/tdata.rs")], [], ["command value"])
prop("C13", "Binary search finds an equal element exactly when there is one",
 "On a list sorted by the same criteria, bin_search returns an index whose element equals the item on every criterion if any such element exists, and null otherwise; bin_get returns that element of the list, and null otherwise. Neither ever crashes, on any list.",
 ["inputs"], "every list, item and criteria list",
 "No existing test calls either function.",
 ["src/funcs/lists.rs"],
 [("bin_search","src/funcs/lists.rs"),("bin_get","src/funcs/lists.rs"),("compare","src/funcs/lists.rs")], [], ["command value"])
prop("C14", "List and map functions return exactly the documented elements",
 "list, append, slice, get, len, index_of, groups, filter, map and join_with return exactly the documented elements in the documented order: list all arguments, append the members of list arguments and the other arguments themselves, slice the elements (or bytes of a string) from start to end, get the element at the index or key (null if a list or map has none), index_of the first equal position, groups consecutive runs of the given size whose concatenation is the input, filter the elements for which the expression is truthy, map the pairs with later keys winning. Out-of-range or ill-typed requests are an error or null, never a different element and never a crash.",
 ["inputs"], "every argument list",
 "Tests call filter and list on tiny inputs; boundary indices, negative numbers, group sizes and empty lists are not reached.",
 ["src/funcs/lists.rs","src/funcs/maps.rs","src/funcs/path.rs"],
 [("list, len, slice, index_of, get, groups, append, filter","src/funcs/lists.rs"),("map","src/funcs/maps.rs"),("join_with","src/funcs/path.rs")], [], ["command value"])
prop("C15", "Escaped text holds no markup character and un-escapes to the input",
 "html_esc and xml_esc replace each of & < > double quote and single quote by a complete, terminated character reference for that character and copy every other character, so the output contains none of the five raw (other than the & opening each reference) and decoding the references gives back exactly the concatenated input text.",
 ["inputs"], "every argument list and every Unicode text",
 "No existing test escapes anything.",
 ["src/funcs/strings.rs","src/funcs/svg.rs"],
 [("html_esc","src/funcs/strings.rs"),("_xml_es / xml_esc","src/funcs/svg.rs")], [], ["command value"])
prop("C16", "No built-in function crashes the host, whatever its arguments",
 "Every function of the default set and the special forms run, first and select, called with any number of arguments of any kinds and values, return a value or an error; they never panic (index out of range, arithmetic overflow, invalid text slice, failed assertion or unwrap).",
 ["inputs","programs"], "every built-in name and every argument list",
 "Tests call each function, where they call it at all, once with well-formed arguments.",
 ["src/funcs/bools.rs","src/funcs/math.rs","src/funcs/lists.rs","src/funcs/maps.rs","src/funcs/strings.rs","src/funcs/path.rs","src/funcs/bytes.rs","src/funcs/format.rs","src/funcs/random.rs","src/funcs/svg.rs","src/funcs/table.rs","src/expr.rs"],
 [("argument-count and range checks","each function of src/funcs"),("run_command","src/expr.rs")], [], ["panic vs. Result"])
prop("C17", "word_wrap keeps all the text and respects newlines and the width",
 "For every text and width word_wrap returns lines whose concatenation has exactly the input's non-whitespace characters in order; every newline of the text ends a line, no line holds one, and for widths of at least 1 no line has more than width characters, not counting white space at its ends.",
 ["inputs"], "every Unicode text and width",
 "No existing test wraps anything; byte and character positions differ only for multi-byte text, and white space handling only shows on unusual characters.",
 ["src/funcs/strings.rs"], [("_word_wrap / word_wrap","src/funcs/strings.rs")],
 [("index, count, brk","start of line, characters since, last break","src/funcs/strings.rs")], ["command value"])
prop("C18", "JSON, TOML and card data read the same however they are passed",
 "Converting a JSON, TOML or card value to template data keeps every member, key, order and number (an integer the data model can hold is never changed), and never crashes. Looking up any path of keys and indices in a JSON, TOML or card container passed as a parameter yields the conversion of exactly the member at that path, or nothing if there is none.",
 ["inputs"], "every JSON/TOML/card document and every path",
 "One test passes one JSON object; nested documents, missing members and large numbers are not reached.",
 ["src/tdata.rs","src/tparam.rs"],
 [("from_json / from_toml / From<&CData> / From<&Card>","src/tdata.rs"),("get_v impls","src/tparam.rs")], [], ["Expr::Var evaluation, conversion result"])
prop("C19", "Text functions keep and combine exactly the given text",
 "cat is the concatenation of its arguments' display texts in order; split cuts at every occurrence of the splitter so that joining the parts with it gives back the text; str_contains is true exactly when one of the needles occurs; str_replace replaces every, and str_replace_n the first n (default 1), occurrences; string_from_ints yields the characters with the given code points, skipping invalid ones; as_base64 and from_base64 are inverse.",
 ["inputs"], "every argument list",
 "One test calls cat; the others are never exercised.",
 ["src/funcs/strings.rs","src/funcs/bytes.rs"],
 [("cat, split, contains, replace, replace_n, string_from_ints","src/funcs/strings.rs"),("as_base64, from_base64","src/funcs/bytes.rs")], [], ["command value"])
prop("C20", "Exports and front matter hold exactly what was exported",
 "Running a template returns, beside the text, exactly its top-level bindings: the last value given to each name by export, @export, return or a top-level let, @let or define, whatever block the export was in. front_matter returns exactly the values of the template's top-level export statements evaluated in order without parameters, each seeing the earlier ones; an export that fails is left out and does not influence the others, and nothing else of the template is evaluated.",
 ["programs"], "every template",
 "No existing test calls front_matter or inspects the returned map beyond one return value.",
 ["src/template.rs","src/scope.rs"],
 [("run_exp / front_matter","src/template.rs"),("set_root / top","src/scope.rs")],
 [("maps[0]","top-level bindings","src/scope.rs")], ["run_exp and front_matter results"])
prop("C21", "Truthiness and the logic functions follow one table",
 "A boolean is itself, a number is truthy when not zero, a string, list or map when not empty, null is falsy and every other kind is neither; and is true exactly when all arguments are truthy, or when some is, nand and nor are their negations. type_of, is_null and is_num name the kind of their argument.",
 ["inputs"], "every argument list of any length and kinds",
 "Tests use booleans only, through if.",
 ["src/tdata.rs","src/funcs/bools.rs"],
 [("as_bool","src/tdata.rs"),("and, nand, or, nor, type_of, is_null, is_num","src/funcs/bools.rs")], [], ["command value"])
prop("C22", "Commands evaluate arguments once, in order, then dispatch by name",
 "A command evaluates its arguments from left to right, each exactly once, stopping at the first error, and passes their values in that order to the function registered under its name; only if there is none is the template of that name called, and if there is neither the result is an error. List and map literals hold the values of their member expressions in order, a later equal key winning, and a host's registration under a name replaces the earlier one.",
 ["programs","configurations"], "every expression, function set and template manager",
 "Tests call default functions with one to three arguments; order, multiplicity and precedence are not observed.",
 ["src/expr.rs","src/func_man.rs","src/temp_man.rs"],
 [("run_command / run_values / Expr::run","src/expr.rs"),("get_func/add_func","src/func_man.rs"),("get_t/insert_t","src/temp_man.rs")], [], ["calls received by host functions"])
prop("C23", "Path functions take paths apart and put them together consistently",
 "join appends its arguments as path components, parent drops the last component, base_name (and base_name_sure, with empty text when there is none) gives the last component, stem gives it without its extension, full_stem the whole path without the extension, with_ext the path with the extension replaced, and bread_crumbs every ancestor from the outermost to the path itself, each exactly once.",
 ["inputs"], "every argument list",
 "No existing test calls a path function.",
 ["src/funcs/path.rs"], [("join_args, parent, join, bread_crumbs, base_name, stem, full_stem, with_ext","src/funcs/path.rs")], [], ["command value"])
prop("C24", "exec runs the named program with exactly the given arguments",
 "exec and exec_stdin start exactly the program named by the first argument, directly and never through a shell, with each further argument passed as one separate, unchanged argument in order (exec_stdin feeding the second one to standard input verbatim); the value is the program's standard output; without a program name nothing is started and the result is an error. env yields the variable's value, or the default argument when it is unset.",
 ["inputs"], "every argument list",
 "No existing test runs a program.",
 ["src/funcs/exec.rs"], [("exec, exec_stdin, env","src/funcs/exec.rs")], [], ["program and argument vector started"])
prop("C25", "File functions read and write exactly the given contents",
 "write makes the file hold exactly the text given, whatever it held before (the free write all content arguments in order, the locked write its one), creating missing folders; file and file_bytes return the concatenation of the named files' contents in order, or an error if one cannot be read; is_file and is_dir are true exactly when every named path is one.",
 ["inputs","configurations"], "every path list, contents and prior file state",
 "No existing test touches a file function.",
 ["src/funcs/folder.rs","src/funcs/free_file.rs","src/funcs/write.rs"],
 [("file, file_bytes, is_file, is_dir","src/funcs/folder.rs, src/funcs/free_file.rs"),("write","src/funcs/write.rs, src/funcs/free_file.rs")], [], ["file contents, command value"])
prop("C26", "JSON written by w_json reads back as the same value",
 "For every value made of null, booleans, numbers, strings, lists and maps, reading with r_json the text w_json wrote gives back an equal value.",
 ["inputs"], "every such value",
 "No existing test writes JSON.",
 ["src/tdata.rs","src/funcs/format.rs","src/parse/expr.rs"], [("Serialize for TData","src/tdata.rs"),("BasicData","src/parse/expr.rs")], [], ["command value"])
prop("C27", "Every text either parses to the template it spells or is refused",
 "Parsing terminates without a crash on every text, and a template text that spells a given sequence of items and expressions in the documented syntax parses to exactly that sequence.",
 ["inputs"], "every text",
 "About twenty texts are parsed by the tests.",
 ["src/parse/template.rs","src/parse/expr.rs","src/parse/pattern.rs"], [("gobble grammars","src/parse")], [], ["TreeTemplate::from_str"])
prop("C28", "Rendering terminates when the template's calls are not recursive",
 "A template that calls no template, directly or indirectly, from itself renders in finitely many steps for all finite arguments.",
 ["programs"], "every non-recursive template",
 "Termination is a whole-history property no finite set of runs settles.",
 ["src/template.rs","src/expr.rs"], [("structural recursion","src/template.rs, src/expr.rs")], [], ["run returns"])
prop("C29", "Plain host values passed as parameters answer exactly their parts",
 "A text, number or boolean passed as a parameter is that value whatever the path; a list of texts is the list at the empty path and its n-th text at a path that starts with n; a hash map is the map of all its converted entries at the empty path and otherwise what the rest of the path reaches in the entry named first; a pair of parameters answers with its first member and, only where that has nothing, with its second; a KV answers paths that start with its name with its converted value. Anything else yields nothing. Text, number and text-list conversions keep the value.",
 ["inputs"], "every value of these host types and every path",
 "Tests pass a handful of strings and one map; missing keys, nested paths and combined parameters are not reached.",
 ["src/tparam.rs","src/tdata.rs"],
 [("TParam for String, &str, str, usize, f64, bool, Vec<&str>, HashMap, (&A, &B), KV","src/tparam.rs"),("From<String>, From<usize>, From<&str>, From<&[&str]>, From<&[String]>","src/tdata.rs")], [], ["Expr::Var evaluation"])
prop("C30", "dir and scan_dir list exactly what is in the folders",
 "dir gives the names of a folder's entries, each once, and for several folders the list of their lists in argument order; it is an error if a folder cannot be listed or a name is not valid Unicode. scan_dir gives, for each regular file in the folder and its subfolders down to the given depth (0 unless a non-negative integer), exactly one map with item_full_path, item_path (its folder, relative to the start) and item_file (its name), overridden by the exports the file's text makes when it is a template; it passes over links, whatever has a name starting with '_', files that cannot be opened and, if the third argument is a valid regular expression, files whose full path it does not match. It is an error if a folder met cannot be listed.",
 ["inputs","configurations"], "every tree of files, folders and links, every depth and pattern",
 "No existing test lists or scans a folder.",
 ["src/funcs/folder.rs","src/funcs/free_file.rs"],
 [("do_dir, dir, do_scan_dir, scan_dir","src/funcs/folder.rs, src/funcs/free_file.rs"),("front_matter","src/template.rs")], [], ["command value"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
