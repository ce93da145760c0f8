"""Source of properties.jsonl, MANIFEST.json and the property table of DESIGN.md (python3 meta/mk.py)."""
P = []


def prop(id, title, statement, over, q, why, files, mech, how=None, na=None, limits=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files, mech=mech, how=how, na=na, limits=limits))


prop("C01", "Direction algebra is the compass rose",
     "Turning, flipping, mirroring and combining the eight directions agrees with the compass rose for every direction: opposite is an involution, two 45-degree turns are one 90-degree turn, four 90-degree turns are the identity, and vertical, horizontal and diagonal parts split and join consistently. The numeric codes are BYOND's bit values (north 1, south 2, east 4, west 8) and conversion to and from numbers round-trips.",
     "inputs", "every direction, and every pair of directions where two are combined",
     "The tests exercise no direction arithmetic at all; a wrong entry shows only for one direction in one operation.",
     ["crates/dreammaker/src/dmi.rs"],
     [("direction tables", "dmi.rs Dir::{flip,clockwise_45,counterclockwise_45,clockwise_90,counterclockwise_90,...}"), ("integer conversion", "dmi.rs Dir::from_int, Dir::to_int")],
     how="extracts the complete decision table of every direction operation from MIR (one result per variant) and checks the group laws and BYOND's bit values on the tables")
prop("C02", "Sprites are addressed in BYOND's sheet layout",
     "For every icon state, direction and frame, the sprite that is looked up is the one BYOND stores there: states in file order, frames in order, directions within a frame in the order S N E W SE SW NE NW, laid out row by row in cells of the declared size. Exported canvases place the directions in the same order, and no exported animation frame contains pixels of the previous one.",
     "inputs", "every direction count (1, 4, 8), direction, frame number, icon size and sheet width",
     "The tests render one or two fixed icons; a wrong offset or stride only shows for particular direction counts, frame numbers or sheet widths.",
     ["crates/dreammaker/src/dmi.rs", "crates/dmm-tools/src/dmi.rs", "crates/dmm-tools/src/dmi/render.rs"],
     [("sprite index", "dmi.rs State::index_of_dir, State::index_of_frame"), ("sheet rectangle", "dmi.rs Metadata::rect_of, dmm-tools dmi.rs IconFile::rect_of_index"), ("running offset", "dmi.rs parse_metadata"), ("export", "render.rs IconRenderer")],
     how="extracts the sprite index of all 24 (direction count, direction) pairs as affine forms, compares stride, rectangle and offset arithmetic as canonical terms, and checks on the control-flow graph that a reused canvas is cleared between frames")
prop("C40", "DreamChecker checks the whole body of every proc",
     "Every statement and expression of every proc body is examined: whatever kind of statement or expression encloses it, each sub-statement, condition, operand, call argument, list element, index and default value is visited, on every path, unless a diagnostic is reported for its parent. A mistake cannot hide by being nested inside some construct.",
     "inputs", "every proc body: every syntax-tree variant nested inside every other one",
     "Tests check a few snippets; a variant whose operand is forgotten shows only for code that puts the mistake exactly there.",
     ["crates/dreamchecker/src/lib.rs", "crates/dreammaker/src/ast.rs"],
     [("visitors", "dreamchecker lib.rs AnalyzeProc::{run, visit_block, visit_statement, visit_expression, visit_term, visit_follow, visit_arguments, ...}"), ("every proc", "dreamchecker lib.rs run_inner, AnalyzeObjectTree::check_proc")],
     how="traversal completeness: for every AST variant and field that can hold statements or expressions, every control-flow path through the handling function hands it to a function that covers it in turn, or registers a diagnostic",
     limits="the value of `set` settings and the contents of prefabs and mini expressions are constants checked elsewhere")
prop("C41", "Sleeping and impure calls are found through the whole call graph",
     "A proc that must not sleep (or must be pure) is reported when it reaches a blocking built-in (or an impure operation) through any chain of calls. Every call is recorded with its receiver and context, every blocking or impure operation is recorded for the proc that contains it unless it is inside a spawn, the annotation is inherited by overrides, every recorded call and every override that can be dispatched to is followed, and the search stops only at spawns, waitfor=0 procs, procs allowed to sleep, procs already searched, and procs that carry the annotation themselves. Each entry of a reported call chain names that call's own location.",
     "inputs", "every call graph: every chain length, override and order of procs",
     "Tests use call chains of two or three procs; a forgotten edge shows only for one kind of call or one shape of graph.",
     ["crates/dreamchecker/src/lib.rs"],
     [("recording", "dreamchecker lib.rs AnalyzeProc::{visit_term, visit_call, check_type_sleepers, visit_expression, check_operator_overload}"), ("propagation", "dreamchecker lib.rs AnalyzeObjectTree::{check_proc_call_tree, propagate_violations}"), ("inheritance", "dreamchecker lib.rs ProcDirective::try_copy_from_parent")],
     how="must-pass path analysis under assumptions: from every point where a call, term or dequeued edge is known and no documented cut-off applies, every path records, reports or enqueues it")
prop("C42", "SpacemanDMM annotations are stored, validated and enforced",
     "Every SpacemanDMM_* proc setting is stored in its own table: unknown names, invalid values, settings on global procs that cannot have them, settings repeated or disabled where that is not allowed, and definition-only settings on overrides are each reported. The annotations are enforced for every proc and variable: overriding private, non-overridable procs and final or private vars, calling private or protected procs from the wrong type, (not) calling the parent, redefining procs, and discarding a pure proc's result are each reported exactly when the annotation in force (the proc's own, else its nearest ancestor's) says so.",
     "inputs", "every proc, variable and type hierarchy; every annotation and value",
     "Tests check one or two annotations on two types; a condition that is inverted or too narrow shows only for one inheritance shape.",
     ["crates/dreamchecker/src/lib.rs"],
     [("tables", "dreamchecker lib.rs AnalyzeObjectTree::{new, add_directive_or_error}, ProcDirective"), ("enforcement", "dreamchecker lib.rs AnalyzeProc::{run, visit_call, visit_follow, visit_statement}, check_var_defs")],
     how="extracts the name-to-table mapping and the flags, and decides each enforcement point by must-pass path analysis: with the conditions assumed every path registers the diagnostic, with any one condition negated none does")
prop("C30", "The configuration decides exactly which diagnostics are recorded",
     "A diagnostic is recorded exactly when the configuration admits it: a level configured for its error type replaces its severity, an error type that is disabled is never recorded, and nothing less severe than the configured display level is. Everything else is recorded once and unchanged, with the location, text, notes, component and error type it was created with, and printed when the print level admits it. Severities order error, warning, info, hint; all documented level words are accepted; a configuration file that cannot be read or parsed is itself reported.",
     "inputs configurations", "every combination of configured level, display level, print level and severity, and every error type",
     "No test registers a diagnostic under a configuration; a wrong comparison shows only for one level and one severity.",
     ["crates/dreammaker/src/error.rs", "crates/dreammaker/src/config.rs"],
     [("gate", "error.rs Context::register_error"), ("levels", "config.rs Config::{set_configured_severity, registerable_error}, WarningLevel::applies_to"), ("construction", "error.rs DMError builder methods and Clone"), ("configuration file", "error.rs Context::{force_config, autodetect_config}, config.rs Config::read_toml")],
     how="the complete decision table of the gate (with its helpers inlined) is extracted from MIR and compared with the specification for all combinations of levels")
prop("C31", "Every diagnostic is configured under its documented name",
     "The error types under which diagnostics can be configured are exactly the names listed under Diagnostics in CONFIGURING.md, and each is attached to the diagnostics it is listed for, at every place that reports them.",
     "inputs configurations", "every diagnostic the parser, preprocessor, object tree and DreamChecker can report",
     "Tests compare messages, never the error type; a missing or misspelt error type only shows for a user who configures it.",
     ["CONFIGURING.md", "crates/dreamchecker/src/lib.rs", "crates/dreammaker/src/preprocessor.rs", "crates/dreammaker/src/parser.rs", "crates/dreammaker/src/lexer.rs", "crates/dreammaker/src/objtree.rs"],
     [("names", "CONFIGURING.md section Diagnostics"), ("sites", "every call of DMError::with_errortype")],
     how="collects every constant error type and the function it is attached in from MIR and compares both with the documented list and the frozen table of sites")
prop("C32", "Exit statuses tell whether anything went wrong",
     "dreamchecker exits with a non-zero status exactly when a diagnostic of severity error, warning or info was recorded, however many there are, and runs DreamChecker whenever parsing succeeded and --parse-only was not given; its JSON summary, written whenever --json was given, counts each severity; the bodies of procs are parsed in every case. dmm-tools exits non-zero when loading a map or preparing the output directory failed. dmdoc exits non-zero when it fails and, in a dry run, when any documentation link could not be resolved; each unresolved link is counted. Rejected arguments exit non-zero.",
     "inputs histories", "every number and mix of diagnostics and failures, and every command line",
     "The binaries have no tests at all; a count that wraps or a severity that is left out only shows for particular runs.",
     ["crates/dreamchecker/src/main.rs", "crates/dmm-tools-cli/src/main.rs", "crates/dmdoc/src/main.rs"],
     [("dreamchecker", "dreamchecker main.rs main"), ("dmm-tools", "dmm-tools-cli main.rs main, run, render_many"), ("dmdoc", "dmdoc main.rs main, main2, broken_link_fixer")],
     how="computes the values that can reach process::exit for representative counts, decides the counting predicate as a table over severities, and must-pass path analysis from every failing operation")

prop("C04", "Malformed map files are rejected",
     "Loading a map file reports an error, and never returns a map or aborts, when the file cannot be read; a key is empty, has a character outside a-z and A-Z, is too long, or has a different length from the others; the grid uses an undefined key or ends a row in the middle of one; a tile of the grid is given twice or missing; coordinates are not three numbers of at least 1 and bounded size made of digits; a variable's value does not evaluate; or the file ends before its grid, inside coordinates, or inside a row. A file with none of these faults is accepted.",
     "inputs", "every map file",
     "Tests load a few well-formed maps; each fault shows only for a file that has it.",
     ["crates/dmm-tools/src/dmm/read.rs", "crates/dmm-tools/src/dmm.rs"],
     [("reader", "dmm/read.rs parse_map, advance_key"), ("entry", "dmm.rs Map::from_file")],
     how="must-pass path analysis: for every fault, assumed on the data the reader tests, every path reaches an error return before the next character is read; with the fault negated none does",
     limits="resource limits (a map too large for memory) and faults of the map's layout that the reader deliberately tolerates are not covered")

prop("C05", "Map coordinates and keys name one tile each",
     "BYOND coordinate (x, y, z), with (1, 1, 1) at the bottom left of the first level, names the grid cell [z-1, height-y, x-1], and the conversion back inverts it; a coordinate outside the map panics instead of naming another tile. Grids are created, measured and iterated in that axis order, level i being reported as z = i + 1. Keys are written most significant letter first in base 52 with the letters a-z then A-Z, in exactly the map's key length, and reading inverts writing; a key that does not fit its length is never written as another key. The key length chosen for a dictionary is 1 up to 52 keys, 2 up to 2704 and 3 beyond.",
     "inputs", "every coordinate, map size, key number and key length",
     "Tests load maps and never index them by coordinate or format a key; an off-by-one shows only at an edge or a boundary key.",
     ["crates/dmm-tools/src/dmm.rs"],
     [("coordinates", "dmm.rs Coord2, Coord3: to_raw, from_raw, Index impls"), ("grids", "dmm.rs Map::{new, iter_levels, z_level, dim_xyz}, ZLevel::iter_top_down"), ("keys", "dmm.rs FormatKey, base_52_reverse, advance_key, Map::adjust_key_length")],
     how="extracts the raw index of a coordinate and its inverse as affine forms, the digits of a formatted key as closed forms for every key length, and decides bounds and key lengths as decision tables at every boundary value")
prop("C07", "Maps are saved and loaded faithfully",
     "Saving writes, in TGM layout, every dictionary entry under its key with every object's path and all of its variables in order, separators only between elements, and every tile of every column of every level under the column's coordinates, and succeeds only if all of it was written. Loading stores every object's path and variables, with strings taken literally up to their unescaped closing quote, under the key that was read, and puts each tile at the coordinates its position in its block gives it, rows downwards and columns to the right, in a grid just large enough for all blocks.",
     "inputs", "every map and every map file",
     "Tests load a few maps and compare sizes; a lost variable, a shifted row or an unescaped quote shows only for particular maps.",
     ["crates/dmm-tools/src/dmm/read.rs", "crates/dmm-tools/src/dmm/save_tgm.rs"],
     [("writer", "dmm/save_tgm.rs save_tgm"), ("reader", "dmm/read.rs parse_map")],
     how="the text the writer can emit is extracted as an automaton and proven equal to the TGM grammar; the reader is extracted as a transition table (every path of one step of its loops) and compared with the specification in every state for every class of character",
     limits="that a constant's textual form evaluates back to the same constant is not decided; strings that need DM's other quoting forms are not covered")
prop("C08", "Constants are written as the DM source that means them",
     "Displaying a constant writes: null; new, its type if it has one, and its arguments in parentheses if it has any; list(...) and constant function calls as their DM name with arguments in parentheses, separated by commas, each with ' = value' exactly when it has one; a prefab as its path, one '/name' per step, followed by {name = value; ...} exactly when it has variables; a resource between single quotes; a string between plain double quotes exactly when all its own quotes and line breaks are escaped, else between {\" and \"}, else in the @@ form when it contains \"}; a number as 0, 1.#INF, -1.#INF, 1.#IND or -1.#IND when it is one of those. Evaluating text as a constant fails when text is left over after it.",
     "inputs", "every constant the parser, map reader or evaluator can produce",
     "Unit tests format a handful of numbers; a lost associated value, separator or quoting rule shows only for particular constants.",
     ["crates/dreammaker/src/constants.rs", "crates/dreammaker/src/lexer.rs", "crates/dreammaker/src/ast.rs"],
     [("constants", "constants.rs Display of Constant, ConstFn, Pop; evaluate_str"), ("paths and variables", "ast.rs FormatTreePath, FormatVars"), ("strings and numbers", "lexer.rs Quote, FormatFloat")],
     how="enumerates every path of the display code (loops unrolled, helpers inlined) with the text it writes and compares the set with the DM grammar of each constant; quoting and special numbers are decision tables",
     limits="the digits of ordinary numbers are left to the standard library's formatter")
prop("C10", "Operators are read with DM's spelling, precedence and associativity",
     "Every DM operator is recognised by its own spelling, the longest spelling that matches first, and by no other. Binary operators bind in DM's order (** then * / % %%, + -, comparisons, shifts, equality, &, ^, |, &&, ||, ?:, assignments, in); operators of one class bind equally; assignments associate to the right, all others to the left; a conditional's condition, branches and else arm are stored as such, the else arm and 'x in a to b' bounds are read to the right extent. Prefix operators apply after postfix ones, innermost first. '.', ':', '?.', '?:' and '::' build field, call, static and proc accesses of that kind, and ':' is not an access inside a conditional. Each operator's name in messages is its spelling.",
     "inputs", "every sequence of operators in every expression",
     "Tests parse a few expressions; precedence and associativity mistakes show only in particular mixtures of operators.",
     ["crates/dreammaker/src/parser.rs", "crates/dreammaker/src/lexer.rs", "crates/dreammaker/src/ast.rs"],
     [("tables", "lexer.rs PUNCT_TABLE, SPEEDY_TABLE; parser.rs BINARY_OPS, Strength, Op::build"), ("expression parser", "parser.rs Parser::{expression, expression_ex, expression_part, group, follow}"), ("names", "ast.rs BinaryOp, AssignOp, UnaryOp, PropertyAccessKind")],
     how="reads the compiled punctuation and operator tables and compares every row with DM's reference; computes, on every path of the expression parser with its vectors and iterators modelled, the tree built for every sequence of up to three operators of tighter, equal or looser strength and compares it with the tree DM prescribes",
     limits="sequences longer than three operators at one level follow by the loop's repetition but are not enumerated; which of two lexings '::'/':' apply depends on whitespace and is not decided")
prop("C17", "Constant expressions evaluate to the value DM gives them",
     "The constant evaluator gives every operator, term and call the value DM gives it. Arithmetic and comparisons work on floats, %% rounds towards minus infinity, bit operations work on 24 bits, && and || return the deciding operand, == and != compare by value, strings are joined; every other combination of kinds is an error and never a value. Truth is: null, 0 and the empty string are false, everything else is true. Calls of list(), new, matrix(), newlist(), icon(), sound(), filter(), file(), generator() and vector() keep their arguments and associations in order; sin, cos, arcsin and arccos work in degrees; rgb() reads positional and named components in any order in each of the four colour spaces, checks their ranges, and writes two lower-case hexadecimal digits per channel; defined(), nameof() and fexists() are decided only where they are allowed. Absolute paths are taken as written, relative ones are resolved against the type. A part that fails makes the whole fail.",
     "inputs", "every constant expression: every operator, operand kind and boundary value, every term, every argument order of rgb()",
     "Tests evaluate a handful of expressions; a wrong entry shows only for one operator on one kind of operand, or one colour space and order of arguments.",
     ["crates/dreammaker/src/constants.rs"],
     [("evaluator", "constants.rs ConstantFolder::{expr, arguments, term, follow, unary, binary, trig_op, prefab, vars, rgb}"), ("conversions", "constants.rs Constant::{to_bool, to_int, to_float, as_str, eq_string, eq_resource, from_bit_op}, PartialEq for Constant")],
     how="extracts the closed form of every path's result from MIR (helpers inlined, iterator adapters turned into loops, lists modelled) and compares the decision table with DM's semantics, float forms at every boundary value; rgb() is decided for every spelling, order and colour space",
     limits="the colour-space conversions themselves are a library's; floats are compared at twelve boundary values per operand, the closed forms being straight-line")
prop("C18", "Constant variables are found, evaluated once, and never recursively",
     "Reading a constant variable gives the value it was given on the nearest type that sets it, climbing from the type through its parents; a variable that is set nowhere or not declared is reported, never given a value. A value is evaluated at most once and then remembered, in the context of the type that sets it with the declared type as its hint; a variable without an initial value is null of its declared type. While it is being evaluated, reading it again is reported as recursion, and afterwards, whether it succeeded or failed, it is not. Variables that are not constant-evaluable, or not const where that is required, are reported. Every variable of every type is evaluated, except those whose declaration makes that impossible, and every failure is reported exactly once. Fields of typed null constants and ::-accesses look up the type named by the path; ::name() is the path of the proc the type has, under proc or verb where it is declared.",
     "inputs histories", "every inheritance chain, every order in which variables refer to one another, and every combination of declaration flags",
     "Tests evaluate small trees; a mark that stays set or a lookup that starts at the wrong type shows only after a failure or through one kind of access.",
     ["crates/dreammaker/src/constants.rs"],
     [("lookup", "constants.rs constant_ident_lookup, ConstantFolder::{ident, recursive_lookup, follow}"), ("driver", "constants.rs evaluate_all, preprocessor_evaluate, Expression::simple_evaluate, evaluate_str")],
     how="the lookup is extracted as a decision table over the variable's state and compared for all 144 states; the climb is decided for every depth up to three; the in-progress mark is checked by dominance and must-reach over the control-flow graph",
     limits="that the climb ends relies on the parent links being acyclic (C20)")
prop("C20", "Names, procs and paths are looked up in the nearest type that has them",
     "A variable, its declaration, a proc and its declaration are those of the nearest type that has them, climbing from the type through its parent types; a proc that is found is the type's last version of it, and ..() is the previous version on the same type or else the parent type's. Asking whether a type is a subtype of another climbs the same way. Walks upwards visit every type once, in order; walks downwards visit the type, its children that are its subtypes, and the types redirected to it by parent_type; walks over overriding procs visit each such type that has the proc, at its last version. A path goes to the direct child for /, to the nearest child of the type or of its parent paths for ., and to the first child in the type's subtree for :; an absolute path starts at the root; proc and verb in a path lead to a proc or a group of procs. Finding a type by its path gives exactly that type.",
     "inputs histories", "every tree of types, every chain of parents and overrides, every name and every path",
     "Tests look up a few names in small trees; a climb that starts or stops one step off shows only for particular chains of types.",
     ["crates/dreammaker/src/objtree.rs"],
     [("lookups", "objtree.rs Type::{get_value, get_var_declaration}, TypeRef::{get_proc, get_proc_declaration, is_subtype_of, parent_type, parent_type_without_root, parent_path}"), ("walks", "objtree.rs TypeRef::{recurse, recurse_types, visit_parent_types, iter_parent_types}, ProcRef::{recurse_children, recurse_children_within, parent_proc}"), ("paths", "objtree.rs TypeRef::{navigate, navigate_path}, ObjectTree::{find, type_by_path, type_by_constant}")],
     how="every lookup is extracted from MIR as a decision table over what the types on the way up hold and compared with the definition for every chain of up to four types; paths of up to three pieces, child lists of up to two and every branch of the override chain are compared term by term",
     limits="chains longer than four types follow by the loop's repetition; that chains end is part of C21")
prop("C21", "The object tree is built as defined and every type gets its parent",
     "A path creates each type on it once, with the path and name it was given, entered under its parent and in the table of types; a type seen again keeps its place, its location becoming the more specific one. A further definition of a variable replaces its value and keeps its declaration unless it brings one. A proc's versions are kept in the order they appear, except that a declaration goes before the overrides that precede it, with a hint; a second declaration is reported and does not replace the first. Every type's parent is the type named by its parent_type or, without one, the type its path names: the root for the built-in types without a parent, /datum for top-level types, /atom for /turf and /area, /atom/movable for /obj and /mob. A parent that does not exist or is no path is reported and falls back; a cycle of parents is reported and cut; a type is listed as redirected exactly when its parent is not its path's parent.",
     "inputs histories", "every order of definitions, every path and every parent_type, including cyclic ones",
     "Tests build a few trees from one source order; the order of overrides, repeated definitions and cyclic parents need particular sources.",
     ["crates/dreammaker/src/objtree.rs"],
     [("types", "objtree.rs ObjectTreeBuilder::{subtype_or_add, get_from_path}"), ("variables and procs", "objtree.rs ObjectTreeBuilder::{insert_var, declare_var, override_var, register_proc, add_proc}"), ("parents", "objtree.rs ObjectTreeBuilder::assign_parent_types, ispath")],
     how="decision tables with the stores of every path of MIR (helpers inlined), the parent of a type for every special path and every kind of parent_type value, the cycle cut for cycles of up to three types and chains of up to four",
     limits="paths of more than three pieces and longer cycles follow by the loop's repetition")
prop("C13", "Code in an inactive conditional branch has no effect; exactly one branch acts",
     "Of the branches of an #if/#ifdef/#ifndef chain with #elif and #else, only the first whose condition holds is active, and #else only if none was; nested chains are active only where every enclosing branch is. In an inactive branch no directive other than those that keep track of conditionals does anything - no include, definition, undefinition, warning, error or pragma - no token comes out, and conditions are neither expanded nor evaluated. In an active branch directives and tokens do take effect. #endif, #else and #elif without an open conditional are errors and change nothing, each #endif closes one conditional, #else and #elif replace the innermost, and conditionals still open at the end of the input are each reported. #ifdef and #ifndef ask whether the macro is defined; __MAIN__ is defined in the environment file only. A condition is the rest of the line, macros expanded. Every closed branch is recorded with its range and whether it was active.",
     "inputs histories", "every nesting of conditionals, every order of directives and every value of the conditions",
     "Tests try a few nestings; a directive that is not held back in an inactive branch, or a chain that forgets it was taken, needs that directive in that place.",
     ["crates/dreammaker/src/preprocessor.rs"],
     [("chain", "preprocessor.rs Ifdef::{new, else_, else_if}, Preprocessor::{is_disabled, pop_ifdef}"), ("directives", "preprocessor.rs Preprocessor::real_next"), ("conditions", "preprocessor.rs Preprocessor::{evaluate_inner, evaluate, is_defined, in_environment}, Iterator::next")],
     how="the state of a chain is compared as a truth table; every directive is run symbolically through every path of the dispatch with the rest of its line scripted, in active and inactive branches, and the calls and stores that touch the preprocessor are compared with what the directive may do",
     limits="what the condition's expression evaluates to is C17's subject; a chain whose branch was taken still evaluates the conditions of its later #elif")
prop("C14", "Macros expand as defined; includes and directives act once, as written",
     "#define gives the macro its parameters, its last one variadic if marked so, and the tokens up to the end of the line; malformed parameter lists are errors and define nothing; DEBUG counts in the environment file only, and a redefinition (but of FILE_DIR) is reported. A name of a constant macro is replaced by its tokens; one with parameters only when `(` follows, otherwise the name stands and what follows is processed as usual. Arguments are separated by commas outside parentheses, surplus ones go to the variadic parameter, a wrong number is an error. Parameters are replaced by their arguments, `##` joins two names, `#` makes a string of an argument. Expansions carry the location of the use; nesting beyond a fixed depth is reported and not expanded. __FILE__ is the innermost file, __LINE__ the line, the operand of defined() is not expanded. #undef removes and records a macro or reports that there is none. #include looks next to the including file, then next to the environment, handles the file by its extension, reports what it cannot find or open, and includes code once unless the file says #pragma multiple. #warn and #error report their text at that severity. Tokens come from the innermost file or expansion until it is used up. A comment before a #define documents it; before anything else it is passed on. An end of an interpolated text without a beginning is passed on and counts for nothing.",
     "inputs histories", "every definition, every call, every order of directives and every nesting of files and expansions",
     "Tests expand a few macros; pasting onto an empty argument, commas in parentheses or surplus arguments need particular tokens in particular places.",
     ["crates/dreammaker/src/preprocessor.rs"],
     [("tokens", "preprocessor.rs Preprocessor::real_next"), ("files", "preprocessor.rs Preprocessor::prepare_include_file, IncludeStack::next"), ("docs", "preprocessor.rs Preprocessor::flush_docs")],
     how="the handling of a token is evaluated abstractly over its MIR with the tokens to come and the table of macros as known values, for every macro body of up to two pieces and every kind of paste and stringification, and compared with a reference model of the directive",
     limits="macro bodies longer than five tokens and calls of more than four arguments follow by the loops' repetition; the output of Display for tokens is C10's subject")
prop("C15", "The macro table is a stack per name and its history records every range",
     "Defining a name puts a definition on top of the earlier ones and says where the last of them was; a lookup finds the top one; undefining removes the top one only, and the name is gone when none is left. What is undefined is recorded in the history from where it was defined to where it was undefined; at the end everything still defined is recorded up to the end of all input, each with a distinct end so that none is lost. A preprocessor branched from the history starts with exactly the definitions whose range holds the place - the start of a file, or the end of the input - with their places, the same environment and otherwise empty; a new preprocessor starts with the built-in macros and the environment file.",
     "inputs histories", "every sequence of definitions and undefinitions and every place branched from",
     "Tests branch at one file of a small environment; nested redefinitions and definitions never undone need particular histories.",
     ["crates/dreammaker/src/preprocessor.rs"],
     [("table", "preprocessor.rs DefineMap::{insert, get, remove, contains_key, from_history}"), ("history", "preprocessor.rs Preprocessor::{move_to_history, finalize}"), ("branching", "preprocessor.rs DefineHistory::{branch_at_file, branch_at_end}, Preprocessor::{new, from_buffer}")],
     how="each operation is evaluated abstractly over its MIR for stacks of up to three definitions and tables of up to two names; constructors are compared field by field",
     limits="the interval tree itself is C70's subject; a macro undefined in a file with a lower id than the one that defined it has an inverted range")
prop("C33", "Files, locations and messages keep their identity up to what is printed",
     "A file registered once gets a fresh id and the same id whenever it is registered again; ids and the paths they stand for are inverse to each other, the builtins and ids never handed out have names of their own, and no id is ever the one that stands for no file. Locations are ordered by file, then line, then column; packing a location into an integer keeps the order and the location before another is the greatest one below it. A message keeps the location, text, severity, kind and notes it was given, each setter changes its own field only, and the printed form names file, line, column, severity and text of the message and for each note what differs from it, in order.",
     "inputs histories", "every number of registered files, every pair of locations and every message with every relation of its notes to it",
     "Tests print one or two messages; the last file id, a column at a line's start or a note in another file are not among them.",
     ["crates/dreammaker/src/error.rs"],
     [("files", "error.rs FileList::{register, get_id, get_path, for_each}, Context::{register_file, get_file, file_path}"), ("locations", "error.rs Location::{cmp, pack, pred, add_columns, builtins, is_builtins}"), ("messages", "error.rs DMError, DiagnosticNote: constructors, setters, accessors, clone"), ("print", "error.rs Context::pretty_print_error, DMError fmt")],
     how="file ids, packing and the location before another are evaluated over the MIR for corner values (0, 1, 2, the greatest, one beyond); the order over all 27 relations of the fields; the printed form for every relation of up to two notes to the message",
     limits="integer functions are decided on corner values, between which they are linear; columns beyond 65535 overflow")
prop("C06", "Failures to read, write or parse are never swallowed",
     "Whenever a call fails with an input/output, encoding or compilation error, the failure is returned, handed on, reported or ends the program; it never disappears, on any path, neither when reading files, maps and icons nor when writing maps, images, animations or documentation. Success is returned only after everything buffered was written and that, too, succeeded; an entry of a directory that cannot be read is not skipped silently. Libraries return such errors instead of aborting. The exceptions are enumerated: looking for a file's spelling, a size hint, constant ranges that are not constant, an `as` type that does not exist.",
     "inputs faults", "every call that can fail, failing at any point of any run",
     "Tests run on disks that work; a lost error needs the failure of one particular call.",
     ["crates/dmm-tools/src/dmm/save_tgm.rs", "crates/dmm-tools/src/dmi.rs", "crates/dmm-tools/src/dmi/render.rs", "crates/dreammaker/src/lexer.rs", "crates/dreammaker/src/lib.rs", "crates/dreammaker/src/dmi.rs", "crates/dreammaker/src/parser.rs", "crates/dmdoc/src/main.rs", "crates/dmm-tools-cli/src/main.rs"],
     [("errors", "every call returning io::Error, png/gif/lodepng/json/walkdir errors or DMError"), ("writers", "save_tgm.rs save_tgm, dmi.rs Image::to_write, render.rs IconRenderer::render_gif"), ("iterators", "lib.rs detect_environment, dmdoc main.rs main2")],
     how="a forward typestate analysis over the MIR follows the result of each of the 800 fallible calls under the assumption that it failed, through moves, conversions, matches and tests, to where it is returned, consumed or lost; buffering writers need a finishing call on every successful path after their last use",
     limits="what the operating system reports late (after close) is out of reach; a failure that is handed to another function counts as handled there")
prop("C03", "Icon metadata is read as written, and malformed metadata is an error",
     "The description of an icon gives its width and height (32 by 32 unless given), and its states in the order written, each with its name, directions (1, 4 or 8), number of frames or delay of each frame, loop count, rewind and movement flags, the first frame its images start at (the sum of directions times frames of the states before it) and its number among the states of the same name; every state is found under its name and that number. Delays that are all 1 are a frame count; delays beyond the number of frames are dropped. A description with another header, a line that is not `key = value`, an unknown key, a number that is not one, a wrong number of directions, a name that is not quoted or contains quotes or backslashes, a setting before the first state, a second frame count or an icon without size is an error; it never ends the program and is never read as something else.",
     "inputs", "every sequence of metadata lines",
     "Tests read two well-formed descriptions; malformed ones and most orders of settings do not occur in them.",
     ["crates/dreammaker/src/dmi.rs"],
     [("parse", "dmi.rs parse_metadata"), ("counts", "dmi.rs Dirs::count, Frames::count"), ("index", "dmi.rs State::get_state_name_index")],
     how="the parser is evaluated abstractly over its MIR with the lines as known values for 1500 descriptions: every pair of 39 well-formed and malformed lines within a state, each alone, wrong headers and longer descriptions; the outcome is compared with a reference model",
     limits="the settings of a state are independent beyond pairs except for frames and delays, for which longer sequences are evaluated")
prop("C44", "Code is reported unreachable only when nothing gets to it",
     "Code after a statement is reported as unreachable only if no execution that comes to that statement gets past it: it returns, crashes, breaks out of or continues a loop on every path, whatever ifs, switches, loops, try and label blocks these are nested in; what breaks out of or continues a loop gets to the code after that loop. Code after statements of which every path returns or crashes (through ifs with else, switches with default, do-while loops and loops over ranges known to run) is always reported. Conditions that are always true or false are reported, and so are the arms of an if after one that is always true; a do-while condition nothing gets to, a range loop that never runs, and SpacemanDMM set statements that are not at the top of a proc.",
     "inputs", "every nesting and sequence of statements in a proc body",
     "Tests contain a handful of bodies; the flags of nested branches and loops interact in ways that need particular nestings.",
     ["crates/dreamchecker/src/lib.rs"],
     [("flow", "lib.rs ControlFlow::{merge, merge_false, no_else, end_loop, finalize, terminates}, AnalyzeProc::{visit_block, visit_statement}"), ("settings", "lib.rs visit_block")],
     how="both functions are evaluated abstractly over the MIR for every kind of statement and every outcome its blocks can have, to a fixpoint over nestings and sequences of any depth; beside each outcome the sets of ways a program can leave such a block are carried, at most for what must not be reported and at least for what must be",
     limits="goto is taken to leave and throw to leave or go on; ifs and switches of one to two arms stand for longer ones; which constant ranges run and which conditions are constant is decided elsewhere (valid_for_range, is_truthy); a do-while condition reached only by continue may be reported as never reached")
prop("C43", "Arguments of calls, filter() and set statements are checked",
     "A keyword argument (name = value or \"name\" = value) is reported exactly if the called proc has no parameter of that name, and an argument without keyword after one with keyword exactly if the proc is not the global animate(); each argument's value is visited once, in order, and nothing else is taken for a keyword. A keyword that is passed to a proc whose override, at any depth below the type it was called on, has no such parameter is reported once for that proc (calls that name the exact proc do not count). filter() is reported if it has no type (and no arglist), if the type is not one of BYOND's, and for each keyword that is neither type, name nor a parameter of that kind of filter; its flags must be flags of that kind, alone or combined by | where several may be given, or 0 where that may be given. The set statements at the start of a proc are reported if the setting is not known, if background, waitfor, hidden, instant or popup_menu is set to a term other than 0, 1, TRUE or FALSE, name, category or desc to a term that is not a string (null for category), or invisibility to anything but 0 to 100; statements after the first that is not a set statement are not looked at. All settings are gathered before any body is checked, and overrides are compared after all bodies.",
     "inputs", "every call and every list of set statements",
     "Tests call one proc with keywords and one kind of filter; each kind of filter, each setting and each shape of argument is a case of its own.",
     ["crates/dreamchecker/src/lib.rs", "crates/dreammaker/src/ast.rs"],
     [("calls", "lib.rs AnalyzeProc::visit_call, ast.rs Expression::as_term, Term::as_kwarg_key"), ("filter", "lib.rs visit_call, check_filter_flag; ast.rs VALID_FILTER_TYPES, VALID_FILTER_FLAGS"), ("settings", "lib.rs AnalyzeObjectTree::gather_settings, directive_value_to_truthy; ast.rs KNOWN_SETTING_NAMES"), ("overrides", "lib.rs AnalyzeObjectTree::{check_kwargs, finish_check_kwargs}, run_inner")],
     how="the functions are evaluated abstractly over their MIR with known arguments: 280 argument lists of every kind of argument and pair of kinds, 300 filter calls (every kind of filter with every parameter), 56 flag values, 209 settings with every kind of value, 200 override situations; the tables are read from the evaluated statics",
     limits="longer argument lists behave as their pairs; a keyword passed on a type that inherits the proc is compared only with overrides found from the proc's own type; the parameters and flags of filters are those of BYOND 515/516's reference, written down in the rule")
prop("C45", "Conditions and ranges are called constant only when they are",
     "A condition is taken to be always true or always false only if it is, whatever the values of its variables: null, 0 and empty text are false, other constants, paths, list() and new true, text with values in it true if any of its literal parts is not empty and otherwise not known; ! negates; && and || of known operands, assignments of known values and ?: with a known condition follow from their parts; all else, in particular anything with another operator, a field or a call, is not known. A loop over a range of constants is taken to run, or not to run, only if it does; with a step that is not a positive constant that is not known. Loop conditions that are known are reported with their value, and conditions of if that are a constant or a comparison, && or || of two constants are reported; others are not.",
     "inputs", "every expression",
     "Tests contain a few constant conditions; a wrong claim about one operator or nesting makes sound code be reported.",
     ["crates/dreammaker/src/ast.rs", "crates/dreamchecker/src/lib.rs"],
     [("truth", "ast.rs Term::{is_truthy, is_static}, Expression::{is_truthy, is_const_eval}"), ("ranges", "ast.rs Term::valid_for_range"), ("reports", "lib.rs AnalyzeProc::{loop_condition_check, visit_control_condition}")],
     how="the functions are evaluated abstractly over their MIR for every variant of term and expression and every operator, with operands of every outcome (true, false, not known); each claim must hold for every value of what is not known, and what follows from known parts must be claimed",
     limits="each function is decided one level deep, assuming of its operands what it is shown to do itself; the sign of a range is decided on corner values")
prop("C16", "Indentation becomes balanced braces",
     "A line indented deeper than the one before opens a block, one indented less closes as many as it leaves, one indented the same ends the statement; the first indentation sets the unit, tabs and spaces count alike, blank lines and line breaks within parentheses mean nothing, a line that starts with a brace is not compared. Each such brace or semicolon is placed where the line before ended. Explicit braces count as a level, a right brace without a block, an indentation that is no multiple of the unit and one of several levels at once are reported where they are and change nothing else. At the end of the input every open block is closed, once, and after processing no line break, tab or space is left; all other tokens pass unchanged and in order, with their locations.",
     "inputs", "every token stream",
     "Tests indent a few programs; a lost or doubled brace needs a particular combination of depth, unit, blank lines, braces and parentheses.",
     ["crates/dreammaker/src/indents.rs"],
     [("indentation", "indents.rs IndentProcessor::{new, real_next, push_eol}"), ("end", "indents.rs Iterator for IndentProcessor")],
     how="a simulation check: from the state that new returns, next is evaluated abstractly over its MIR on every word (8 kinds of line break and indentation, 6 tokens) in each of the 49 states reached, 2352 words, and its output and reports compared with a reference model's; the states' fields are not looked at",
     limits="up to three levels of blocks (four within a step), two open parentheses and four columns; beyond, the same code counts further")
prop("C11", "Text is split into tokens as written",
     "Strings run to their terminator: a backslash keeps the next character, an escaped line break skips the white space after it, a partial terminator is text, `[` starts an interpolation with text before and after it that ends at the matching `]`. Raw strings run to their own terminator, resources to the quote. Block comments nest, line comments end at the line break unless it is escaped (reported); comments marked as documentation yield their text. What is not terminated is reported where it starts. Numbers have decimal, hexadecimal and infinite forms with fraction and exponent; one that does not fit an integer becomes a float (reported if inexact), malformed ones are reported. Punctuation is the longest match. Every token carries the line and column at which it starts; every byte is read once, in order; bytes that begin no token are reported once and skipped; the text after #warn and #error is one string. The last token is a line break.",
     "inputs", "every byte sequence",
     "Tests tokenise a few snippets; a partial terminator, an escaped line break or a nested comment at one position needs that very text.",
     ["crates/dreammaker/src/lexer.rs"],
     [("literals", "lexer.rs Lexer::{read_string, read_raw_string, read_resource, read_number_inner, read_number}"), ("comments and white space", "lexer.rs Lexer::{skip_block_comments, skip_line_comment, skip_ws}"), ("names and punctuation", "lexer.rs Lexer::{read_ident, read_punct, check_close}, PUNCT_TABLE"), ("bytes", "lexer.rs Lexer::{next, put_back}, LocationTracker"), ("tokens", "lexer.rs Iterator for Lexer")],
     how="a simulation check: the transitions of each reading function for every byte in every state are extracted from its MIR by abstract evaluation, from its start until no new state is reached (about 50000 transitions), and simulated by a reference automaton with the same output, reports and bytes put back; next() is decided on every punctuation and byte under every directive, nesting and closing state",
     limits="counters beyond the explored bound (comments nested more than four deep) behave as the bound; the text collected is compared per transition")
prop("C22", "Statements are read as they are written",
     "A block is the statements between braces, one statement without them, or nothing before `;` or `}`. if takes any number of else-ifs and one else; while, do-while, spawn with an optional delay, switch with exact and range cases and an else, try/catch with its parameters, set with = or in, break and continue with an optional label, del, goto, return, throw, CRASH, labels and variable declarations (several separated by commas, each with its own initialiser) yield the statement with exactly the expressions, names and blocks written, each in its place. for() is infinite, three-part with `;` or `,`, over a list with the variable's type and input type, over a range with `to` and `step` in all its spellings, or over keys and values. Modifiers without effect on local variables are warned about. What does not fit any form is an error. A statement carries the location of its first token, and leaves the rest of the tokens untouched.",
     "inputs", "every sequence of tokens, with any expressions, paths and blocks in it",
     "Tests parse a few snippets; exchanged bounds, a lost input type or a swallowed `else` need one particular form of one statement.",
     ["crates/dreammaker/src/parser.rs"],
     [("statements", "parser.rs Parser::statement"), ("loops", "parser.rs Parser::{statement, for_range}"), ("simple statements", "parser.rs Parser::simple_statement"), ("blocks", "parser.rs Parser::{block, statement_terminator, skip_phantom_semicolons}"), ("lists", "parser.rs Parser::{separated, case}")],
     how="the functions are evaluated abstractly over their MIR on words of tokens, some of which stand for any expression, path or block, and compared with a reference grammar: about 19000 words, every one up to twelve tokens over what each place is asked for",
     limits="else-ifs, cases and declarations beyond twelve tokens are read by the same loops; the location of a switch case is not stated (an existing test fixes it to the end of the block)")
prop("C23", "Terms, calls and accesses are read as they are written",
     "A term is exactly what is written: literals with their value; names; calls with their arguments in order; new with a path, a relative path, a variable and its fields, `.` or nothing, and its arguments or none; list and alist; call()(); call_ext(library, function)(); input() with its `as` and `in`; locate() with its `in`; pick() with each choice and its weight; as(), null, __PROC__, __TYPE__, __IMPLIED_TYPE__; ..(), .(), `.`; ::name and ::name(); `(expression)` and `()`, which is null with a warning; strings with embedded expressions, parts and expressions alternating in order, an empty one for none; paths whose every separator and part is kept, with the variables in braces. Prefix and postfix operators and accesses are applied in the order in which they bind; an access names its kind, its name and its arguments, a missing name is an error but does not stop the parser; `:` is an access in a ternary only after a name. What these are followed by is left untouched, and each carries the location of its first token.",
     "inputs", "every sequence of tokens, with any expressions, arguments and paths in it",
     "Tests parse a few snippets; a swapped weight, a relative path read as an absolute one or an operator applied in the wrong order need one particular term.",
     ["crates/dreammaker/src/parser.rs"],
     [("terms", "parser.rs Parser::term"), ("operators", "parser.rs Parser::group"), ("accesses", "parser.rs Parser::{follow, field, list_access}"), ("paths", "parser.rs Parser::{prefab, prefab_ex, path_separator}"), ("lists", "parser.rs Parser::{arguments, pick_arguments, separated}"), ("input", "parser.rs Parser::{input_specifier, input_type}")],
     how="the functions are evaluated abstractly over their MIR on words of tokens, some of which stand for any expression, argument list, path or input type, and compared with a reference grammar: about 18000 words over what each place is asked for",
     limits="empty arguments (`f(, 1)`), which the parser drops by its own admission, are not stated; lists beyond ten tokens are read by the same loops")
prop("C24", "Declarations are recorded as they are written",
     "Types, variables and procs are declared where their path and the enclosing blocks put them: each part of a path names a type below the one before, `var` starts a variable, `proc` and `verb` a proc of that kind, and the parts after these are flags and, for a variable, its type; a path that starts with `/` starts at the root (with a warning inside a block). A variable's initialiser, input type, array dimensions (as a list type and a new list of those sizes) and the doc comments around it are recorded with it; `name = value` without var overrides; name(..) is a proc with its parameters, return type, doc comments, location and body (kept when wanted; its errors are reported); `{` opens a block for everything so far, and the block's entries are read until its end. Operators' names include every operator. A parameter has exactly the name, type, flags, dimensions, default, input type and list written. Return types are `as` input types or a path. The words that are flags are global, static, const, tmp, final and the SpacemanDMM_ flags, for procs final; flags are written out as the same words. What has no effect, does not belong or does not follow the configured path style is reported; what is not a declaration is left untouched.",
     "inputs", "every sequence of tokens, with any paths, expressions, parameters, doc comments and bodies in it",
     "Tests parse a few declarations; a lost flag, doc comment or dimension, or an entry in the wrong type, needs one particular combination of path, block and suffix.",
     ["crates/dreammaker/src/parser.rs", "crates/dreammaker/src/ast.rs"],
     [("declarations", "parser.rs Parser::{tree_entries, tree_entry}"), ("paths", "parser.rs Parser::{tree_path, possible_leading_slash, slash, try_read_operator_name}"), ("procs", "parser.rs Parser::{proc_params_and_body, proc_parameter, return_type, read_any_tt}"), ("arrays", "parser.rs Parser::var_suffix, ast.rs VarSuffix, VarTypeBuilder"), ("keywords", "ast.rs VarTypeFlags, ProcFlags, ProcDeclKind")],
     how="the functions are evaluated abstractly over their MIR on words of tokens, some of which stand for any path, expression, parameter or doc comment, in nine sorts of enclosing block, and compared with a reference grammar: about 40000 words over what each place is asked for; the keyword tables and flag sets are evaluated on every word they know and every set",
     limits="paths are a sample of 34 that covers every kind of part in every position; longer ones are read by the same loop")
prop("C46", "Return type expressions denote the types their arguments give",
     "A return type expression is a path, null, a parameter, `parameter.type` with any number of `[_]` before it, or such expressions in parentheses or joined by `||`, `&&` and `?:`; anything else is an error. For a call it denotes: the type of the path; nothing; the type whose path is the argument's value, or nothing when that is not a path; the static type of the argument with one list removed per `[_]`, nothing when it is not a list; `A || B` is A if it is a type and else B, `A && B` is B if A is a type and else A, `A ? B : C` is B if A is a type and else C. A parameter is the argument of that name if one was named, else the one in its position, else nothing. A path of a declared type is what follows its flags: nothing, a list of what follows `list`, or the named type; an unknown one is an error. An input type stands for /mob, /obj, /turf, /area, /list, /atom/movable for a mixture of mob and obj, /atom for other mixtures of these, otherwise for no type.",
     "inputs", "every expression and every call",
     "Tests check four call results; exchanged branches, a list too many or the wrong argument need one expression with one sort of call.",
     ["crates/dreamchecker/src/type_expr.rs", "crates/dreamchecker/src/lib.rs", "crates/dreammaker/src/ast.rs"],
     [("meaning", "type_expr.rs TypeExpr::{compile, evaluate}, TypeExprContext::get"), ("types", "dreamchecker lib.rs static_type, StaticType::{strip_list, strip_lists, is_truthy}"), ("input types", "ast.rs InputType::to_typepath")],
     how="compile and then evaluate are evaluated abstractly over their MIR on every expression over 13 terms, 9 accesses and all operators and every sort of call (about 10000), and compared with a reference semantics; static_type on 303 paths, to_typepath on every set of nine input types",
     limits="expressions nested more than three deep are compiled by the same recursion; `parameter[_]` without `.type`, which the documentation does not mention, is not stated; that the calls' arguments are collected in this form is not examined")

prop("C70", "The interval tree holds what was put in and finds every overlap",
     "The interval tree maps ranges, ordered by start and then end, to the list of values inserted under them. insert(range, value) appends the value to the range's list and leaves every other range as it was; remove(range) takes away that range with its values and nothing else; get and contains find exactly the ranges that are there, min and max the first and the last. range(a..=b) yields every (range, value) whose range overlaps a..=b and no other, in order of the ranges and, for one range, of insertion; iter and into_iter yield them all in that order. After every operation the tree is balanced: the heights of a node's children differ by at most one, and the height and the greatest end recorded at each node are right. No operation panics.",
     "histories", "every history of insertions and removals",
     "The tests insert ascending points and random ranges and look at the root only; a rotation that leaves a stale maximum hides ranges only for one shape and one query.",
     ["crates/interval-tree/src/node.rs", "crates/interval-tree/src/tree.rs", "crates/interval-tree/src/iterators.rs", "crates/interval-tree/src/range.rs"],
     [("nodes", "node.rs Node::{insert, delete, rotate_*, update_height, drop_min, combine_two_subtrees, search_pair}"), ("queries", "iterators.rs RangePairIter, IntoIter; tree.rs IntervalTree"), ("order", "range.rs RangeInclusive")],
     how="every operation is evaluated abstractly over its MIR on every balanced tree shape of up to nine keys with several assignments of ends (about 7000 insertions and removals at every position, 1200 lookups, 2900 range queries), and the resulting tree is compared with the ordered map and checked for balance, heights and maxima; each operation keeps the invariant it assumes, so this covers every history",
     limits="taller trees: what is done at a node depends on the order of two keys, the heights of children and grandchildren and two maxima only, and the shapes examined have every combination of those; keys are integers")

prop("C50", "Minimaps draw every atom as its variables say, in order and in place",
     "The minimap of a region of a level has 32 by 32 pixels per tile. Every prefab of every tile of the region becomes an atom unless its type is unknown or a render pass rejects it (path_filter, early_filter; expand adds the atoms it gives, in the order of the passes, and may replace the prefab); late_filter rejects an atom when it is drawn but its neighbours still see it. An atom's variable is the one the map sets, else the one of the nearest type that has it, else null. Its sprite is: icon (text or resource), icon_state (text), dir (south if it is no direction), colour and alpha (#rrggbb, #rgb or an HTML colour name, else white; alpha 255 unless between 0 and 255), offset pixel_x + pixel_w + step_x to the right and pixel_y + pixel_z + step_y up, plane and layer; an atom without an icon is not drawn. The sprites of an atom are its underlays, what neighborhood_appearance adds, the atom itself unless a pass says otherwise, its overlays; sprites rejected by sprite_filter are left out. Passes see the nine tiles around an atom's tile, nothing where there is no tile, even outside the region. Sprites are drawn by plane, then layer (ordered as numbers), and otherwise in this order, tile by tile from the north west, the lower left corner of the icon at the lower left corner of the tile moved by the offset; what is outside the image is cut off. A pixel is tinted by the colour and blended over what is there: out alpha = a + b(1-a), each channel the alpha-weighted mean, in integers rounded down and at most 255.",
     "inputs", "every map, region, object tree and set of render passes",
     "No test renders anything; an order, an offset or a wrapped channel shows only in a picture of a particular map.",
     ["crates/dmm-tools/src/minimap.rs", "crates/dmm-tools/src/dmi.rs"],
     [("pipeline", "minimap.rs generate, get_atom_list, clip, Neighborhood"), ("appearance", "minimap.rs Sprite::from_vars, GetVar, color_of, Layer"), ("pixels", "dmi.rs Image::composite")],
     how="each function is evaluated abstractly over its MIR and compared with a reference: generate on 53 combinations of map, region and behaviour of two render passes, with what is drawn logged; from_vars on every form of every variable; the lookups on every distribution of a variable; the order of layers on 600 pairs; clip on every sort of overlap; composite on a grid of pixels, tints and crops",
     limits="the built-in render passes and the decoding of images are not examined here; more than two passes and larger maps follow the same loops; sort_unstable is taken to exchange equal elements")

prop("C51", "The built-in render passes run as asked and do what they say",
     "The render passes are, in this order and by these names, hide-space, hide-areas, hide-invisible, random, pretty, spawners, overlays, transit-tube, gravity-gen, only-powernet, only-pipenet, fancy-layers, icon-smoothing-2016, icon-smoothing, icon-smoothing-2025, smart-cables, only-wires-and-pipes; on by default are all but only-powernet, only-pipenet, only-wires-and-pipes, icon-smoothing-2016 and icon-smoothing-2025. A pass runs if it is included by name; else not if excluded by name; else if all are included; else not if all are excluded; else as the configuration's render_passes says; else by default. Each pass that runs is made once and given the configuration. A type is below a path if it is that path or begins with it and a slash. hide-space drops /turf/open/space and sprites of icons/turf/space.dmi and turns /turf/template_noop into space; hide-areas drops areas; hide-invisible drops the configured paths, mapping helpers, xmastree spawners, what is more invisible than 60 and syndballoon icons that are not syndicate balloons; the only- passes keep just cables, pipes or both, late; spawners replaces a structure spawner by the types in its spawn_list, in order. fancy-layers sets the plane to 0 and the layer to that of the longest configured path the type is below, else of the built-in table, and draws vents and scrubbers twice. overlays, pretty, gravity-gen, transit-tube and smart-cables add exactly the sprites that the variables, direction and neighbours of the atom ask for, at the atom's own appearance but for the state, icon, offset, direction or layer they set.",
     "inputs", "every include and exclude list, configuration, atom and neighbourhood",
     "No test runs a render pass; an order of precedence, a path compared without its slash or a state chosen by the wrong variable shows only on a particular map.",
     ["crates/dmm-tools/src/render_passes/mod.rs", "crates/dmm-tools/src/render_passes/structures.rs", "crates/dmm-tools/src/render_passes/transit_tube.rs", "crates/dmm-tools/src/render_passes/smart_cables.rs", "crates/dmm-tools/src/minimap.rs"],
     [("selection", "render_passes/mod.rs RENDER_PASSES, configure, configure_list"), ("passes", "render_passes/mod.rs HideSpace, HideAreas, HideInvisible, Overlays, Pretty, Wires, Pipes, WiresAndPipes, FancyLayers; structures.rs; transit_tube.rs; smart_cables.rs")],
     how="each function is evaluated abstractly over its MIR, the table of passes included, and compared with a reference: the selection on every pass included, excluded and configured in every combination with all and none; the methods on atoms whose path is, is below, or merely resembles each path a pass knows, with every form of every variable it reads; smart-cables on 73 neighbourhoods",
     limits="the random pass (it draws random numbers) and the three icon-smoothing passes are examined only as to when they run; spawn lists hold strings here, not prefabs")
prop("C90", "No input crashes, hangs or exhausts the tools",
     "Whatever bytes a source file, map, icon or configuration contains, every tool ends, with diagnostics or an error, without a panic, an endless loop, or memory out of proportion to the input.",
     "inputs", "every file content",
     "Tests hold a handful of well-formed files.",
     ["crates/dreammaker/src", "crates/dmm-tools/src", "crates/dmdoc/src"],
     [("everything", "every panicking operation, loop and recursion of the parsers and renderers")],
     na="deciding it needs bounds on runtime quantities (lengths, indices, recursion depths, macro expansion sizes) at some 900 checked operations, unwraps and index expressions of the eight crates; a sound static argument in reach proves only a small part of them and would report hundreds of harmless sites as violations. What is decidable of it is part of the claimed properties: malformed maps and icon metadata are errors (C03, C04), the nesting of macros is bounded (C14), indentation and #if stacks cannot underflow (C13, C16), constants and parent types are not followed in circles (C18, C21), and the call-graph searches visit each proc once (C41)")
