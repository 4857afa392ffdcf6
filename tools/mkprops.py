import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","SELECT emits exactly the passing source rows, in order, transformed",
"A SELECT without GROUP BY, ORDER BY or LIMIT emits, for each row of its source and in source order, exactly one output row when WHERE is absent or truthy for that row, and none otherwise. The output row has the selected columns in the order written, each holding the value of its expression over that source row; `*` stands for the source row's columns in their order and an explicitly selected column of the same name takes precedence over a starred one. WHERE sees the source row's columns and the selected aliases (an alias shadows a source column), while a column expression sees only the source row and the enclosing scope.",
["inputs","programs"],"for every source table (any number of rows, ragged columns, NULLs, nested values) and every combination of columns, star, aliases, nested subselects and WHERE condition",
"The golden tests evaluate about 150 fixed queries over three or four fixed row sets; they cannot show that no row is lost, duplicated or reordered, or that a column is evaluated over the right row, for all tables and column lists.",
["vfilter.go","lazy.go"],[("_Select.Eval / processSingleRow","vfilter.go"),("_SelectExpression.Transform, mergeStarRow","vfilter.go"),("MaterializedLazyRow","lazy.go")],observe=["rows received from VQL.Eval"])

p("C02","GROUP BY emits one row per key, aggregating exactly that key's rows",
"A SELECT with GROUP BY emits exactly one row for each distinct value of the GROUP BY expression among the source rows that pass WHERE (values are told apart by their string form, a comma list component by component), in the order in which each value first appears. That row holds the columns as evaluated on the group's last passing row, and each aggregate function in it (count, sum, min, max, enumerate) has accumulated every passing row of that group exactly once, in order, and no row of another group or rejected by WHERE. ORDER BY and LIMIT of the same SELECT apply to these grouped rows.",
["inputs","programs"],"for every table, grouping expression, aggregate mix and WHERE condition",
"Tests group three fixed tables; whether accumulators of different groups, different call sites or rejected rows can ever mix depends on the arrangement of keys over rows.",
["vfilter_group.go","grouper/grouper.go","functions/aggregates.go"],[("GroupbyActor.GetNextRow","vfilter_group.go"),("DefaultGrouper.Group","grouper/grouper.go"),("AggregatorCtx.Modify","aggregators/aggregators.go")],observe=["rows received from VQL.Eval"])

p("C03","ORDER BY emits a sorted permutation of the unordered result",
"A SELECT with ORDER BY emits exactly the rows the same SELECT emits without it (same multiset), arranged so that no row is followed later by one whose ORDER BY column is strictly smaller (for DESC: strictly larger). NULL and missing values sort before every non-NULL value in ascending order and after every one in descending order. This holds for any column whose non-NULL values are all numbers or all strings.",
["inputs","programs"],"for every table, sort column and direction, including ties, NULLs, missing columns and mixes of integers and floats",
"Tests sort two fixed result sets of a few rows; sortedness and permutation are claims over all row sets, and comparators that are not strict weak orders only show on particular arrangements.",
["sort/sort.go","vfilter.go","vfilter_group.go"],[("DefaultSorterCtx.Less","sort/sort.go"),("_Select.Eval ORDER BY branch","vfilter.go")],observe=["rows received from VQL.Eval"])

p("C04","LIMIT n yields the first n result rows and stops the source",
"A SELECT with LIMIT n emits exactly the first n rows (all of them if there are fewer, none for n = 0) of the rows the same SELECT emits without LIMIT, where LIMIT applies after WHERE, GROUP BY and ORDER BY. Once the n rows are delivered the query's source is cancelled: it completes even over an endless source and never pulls more than a fixed small number of rows beyond those it needed.",
["inputs","programs","schedules"],"for every n, every query under the LIMIT and every schedule of the pipeline's goroutines, including endless sources and nested LIMITs",
"A handful of golden queries use LIMIT on finite sources; prefix correctness for all n and termination over endless sources under every schedule are not sampled.",
["vfilter.go"],[("_Select.Eval LIMIT branch","vfilter.go")],observe=["rows received from VQL.Eval","rows pulled from a source plugin"])

p("C05","Cancelled or finished queries release everything they started",
"When a query ends - its rows are exhausted, a LIMIT is reached, or the caller cancels the context and stops reading at any point - the output channel is closed, the context handed to every plugin call is cancelled or the plugin has finished, and once the scope the query ran on is closed too, every destructor registered while the query ran has run exactly once; a destructor registered by a plugin or function does not run while the call that registered it is still producing rows and the query has not been cancelled. Every goroutine of the query terminates. The rows delivered before a cancellation are a prefix of the rows an uncancelled run delivers.",
["schedules","programs","fault_sequences"],"for every query shape (WHERE, GROUP BY, ORDER BY, LIMIT, foreach with workers, chain, flatten, stored queries), every cancellation point and every goroutine schedule",
"Tests drain queries to completion on one CPU; leaks and lost destructors appear only for particular cancellation points and interleavings.",
["vfilter.go","vfilter_group.go","stored.go","plugins/foreach.go","plugins/chain.go","plugins/flatten.go","sort/sort.go","grouper/grouper.go","scope/scope.go"],[("ctx.Done selects around every send","vfilter.go"),("workerPool","plugins/foreach.go"),("DefaultSorter.Sort","sort/sort.go")],observe=["channel close","plugin context","destructor calls","goroutine set"])

p("C06","Closing a scope runs each registered destructor exactly once, LIFO",
"Every destructor successfully registered on a scope runs exactly once, no later than the end of the Close() of that scope, or of an ancestor whose Close() began after the scope was copied (when Close() calls overlap, by the time all of them have ended; up to the documented bound of ten rounds of destructors that re-register destructors); within one round a scope's destructors run in the reverse of registration order, and a scope's descendants are destroyed before its own destructors run. Registration on a scope already closed is refused with an error and never runs; closing twice runs nothing again. This holds under any interleaving of Copy, AddDestructor and Close calls on the scope tree.",
["schedules","histories"],"for every history of Copy/AddDestructor/Close over a scope tree, including concurrent ones and destructors which themselves register destructors or close scopes",
"scope_test checks a few straight-line histories; exactly-once and ordering must hold for all interleavings and tree shapes.",
["scope/scope.go"],[("Scope.Close","scope/scope.go"),("Scope.AddDestructor, _destructors","scope/scope.go"),("Scope.Copy","scope/scope.go")],state=[("children","live child scopes","scope/scope.go"),("destructors","registered, not yet run","scope/scope.go")],observe=["destructor calls","AddDestructor results","IsClosed"])

p("C07","foreach runs its query exactly once per row for any worker count",
"foreach(row, query, workers) evaluates its query exactly once for each row of its row source, with that row's columns visible to the query, and emits every row each evaluation produces exactly once and none other. With one worker (the default, and the least) the output is the concatenation of the evaluations in row order; with more workers it is an interleaving of them which keeps each evaluation's own order, and never more than the given number of evaluations run at the same time. Without a query it emits the row source's rows (the selected column of each when a column is named) in order.",
["schedules","inputs","programs"],"for every row source, query, worker count and goroutine schedule",
"Tests run foreach with workers on one CPU for one or two queries and compare a single order; exactly-once and isolation under real concurrency are schedule properties.",
["plugins/foreach.go"],[("workerPool","plugins/foreach.go"),("_ForeachPluginImpl.Call","plugins/foreach.go")],observe=["rows received from VQL.Eval","calls seen by probe functions and plugins"])

p("C08","Aggregate functions accumulate per call site and aggregation context",
"Outside GROUP BY, each textual occurrence of an aggregate function has its own accumulator, shared by nothing else, which advances once per evaluation: the k-th row of a SELECT sees count() = k, sum/min/max/enumerate over its first k values. A LET function or stored query which is called with arguments starts from fresh accumulators on every call, so nested and repeated calls never disturb each other or their caller. No update is lost when rows are produced concurrently.",
["inputs","programs","schedules"],"for every arrangement of aggregate calls in columns, conditions, nested functions and concurrent foreach evaluations",
"The golden file has about ten aggregate queries; cross-talk between call sites, calls and workers depends on program structure and on schedules.",
["functions/aggregates.go","aggregators/aggregators.go","vfilter.go","stored.go","scope/scope.go"],[("_SymbolRef.callFunction caches one function copy per AST node","vfilter.go"),("Scope.GetAggregatorCtx/SetAggregatorCtx","scope/scope.go"),("AggregatorCtx.Modify","aggregators/aggregators.go")],observe=["rows received from VQL.Eval"])

p("C09","LET = is evaluated at each reference, LET <= exactly once",
"After `LET x = <expr or SELECT>` nothing is evaluated; each later reference evaluates the definition afresh in the scope of the reference, so it sees the variables visible there. After `LET x <= ...` the definition has been evaluated exactly once, at the LET, and every later reference yields those same rows or that same value in the same order without evaluating it again. A later LET of the same name replaces the earlier one for later statements.",
["programs","histories"],"for every sequence of LET and SELECT statements and every use (source, column, condition, argument, member access)",
"Tests look at results of fixed multi-statement scripts; how often and where a definition is evaluated is visible only through instrumented functions over many programs.",
["vfilter.go","stored.go","materializer/in_memory.go"],[("VQL.Eval LET branch","vfilter.go"),("StoredExpression, _StoredQuery","stored.go"),("InMemoryMatrializer","materializer/in_memory.go")],observe=["rows","evaluation counts seen by probe functions"])

p("C10","Calling a LET definition binds its arguments by name for that call only",
"Calling a LET function or stored query with arguments evaluates it in a scope where each named argument holds the value computed in the caller's scope (arguments are evaluated exactly once per call), each parameter that was not passed holds its declared default evaluated in the caller's scope, and every other name resolves as at the call site. An argument shadows any other variable of the same name inside the call and is not visible after or outside the call. The same definition can be called as an expression, as a row source, and nested or recursively.",
["programs","inputs"],"for every definition, set of passed arguments and defaults, call position and nesting",
"Tests exercise a handful of fixed calls; binding must be right for all argument subsets and nesting structures.",
["vfilter.go","stored.go"],[("buildArgsFromParameters, _SymbolRef.Reduce","vfilter.go"),("Plugin.evalSymbolWithArgs","vfilter.go"),("applyDefaults","stored.go")],observe=["rows","probe calls"])

p("C11","A name resolves to its innermost binding and bindings never leak",
"In any expression a name resolves to the most recently introduced enclosing binding: call arguments and foreach row columns shadow outer variables, source row columns shadow everything outside the SELECT, and in WHERE and GROUP BY aliases shadow source columns; a name bound nowhere yields NULL. Variables added to a scope are visible in it and in scopes copied from it afterwards, and never in its parent, its siblings or in earlier copies.",
["programs","inputs","histories"],"for every nesting of subqueries, foreach, LET calls and scope copies with reused names",
"Tests rarely reuse one name at several levels; shadowing and leakage are claims about all nestings.",
["scope/scope.go","vfilter.go"],[("Scope._ResolveVars, AppendVars, Copy","scope/scope.go")],observe=["rows","Scope.Resolve"])

p("C12","Expressions are evaluated only when needed and at most once per row",
"A column of a row that WHERE rejects is not evaluated unless WHERE or GROUP BY refers to it, and a column is evaluated at most once per row however often the condition, the grouping and the output use it. if() evaluates its condition once and only the branch taken; AND/&& and OR/|| evaluate operands left to right and stop at the first one that decides the result; an argument a function does not use is not evaluated.",
["programs","inputs"],"for every expression, WHERE condition, alias reference pattern and row",
"Tests cannot see how often something is evaluated except in one lazy test; needed-only and at-most-once are claims over all programs.",
["lazy.go","vfilter.go","functions/if.go"],[("LazyRowImpl.Get cache","lazy.go"),("_AndExpression/_OrExpression.Reduce","vfilter.go"),("NewLazyExpr","lazy.go")],observe=["calls seen by probe functions"])

p("C13","Comparison operators form a consistent algebra over all value types",
"For all values a and b: a = b gives the same as b = a, a != b and a <> b are its negation, a < b gives the same as b > a, at most one of a < b, a = b, a > b is true, and <= and >= are < or = and > or =. Numbers (integers, floats, and booleans as 0/1) compare by numeric value and strings bytewise, exactly one of the three holding within either kind (booleans among numbers); NULL equals only NULL and is neither smaller nor greater than anything; values of different kinds are unequal and unordered; arrays are equal elementwise and dicts by key.",
["inputs"],"for every pair of values of every kind",
"The operator tests list some fifty literal comparisons; the laws quantify over all pairs of types and values.",
["protocols/protocol_eq.go","protocols/protocol_lt.go","protocols/protocol_gt.go","vfilter.go"],[("EqDispatcher, LtDispatcher, GtDispatcher","protocols/"),("_ConditionOperand.Reduce","vfilter.go")],observe=["expression values"])

p("C14","Operators and member access are total: defined values or NULL, no panic",
"Every arithmetic, membership, match, logical, index, slice and member expression yields a value for all operand types and never panics: int with int gives an int for + - * and a float for /, any float operand makes the result a float, string + string concatenates, string * n repeats, array + value appends, division by zero gives NULL, and a combination without meaning gives NULL (false for IN and =~). Reading a missing member or an out-of-range index gives NULL, a slice is clipped to the value's bounds, negative positions count from the end, and a member of an array or of a query's rows maps over its elements.",
["inputs","programs"],"for every operator, every pair of operand types and boundary values",
"The tests enumerate a list of literal expressions; totality is a claim over the full product of operators and types.",
["protocols/","vfilter.go"],[("AddDispatcher..DivDispatcher","protocols/"),("AssociativeDispatcher, DefaultAssociative","protocols/protocol_associative.go"),("_MemberExpression.Reduce","vfilter.go")],observe=["expression values"])

p("C15","Expressions group by the documented precedence and associativity",
"Any expression evaluates as if fully parenthesised by these rules, loosest first: comma lists, AND/&&, OR/||, NOT, one comparison (=, !=, <>, <, <=, >, >=, IN, =~), + and -, * and /, member access (. and [ ]); + - * / associate to the left. Parentheses override this, keywords are case-insensitive, and whitespace, line breaks and comments between tokens change nothing; the same holds in the body of a lambda, where its parameters name the values it is given.",
["inputs","programs"],"for every operator sequence, parenthesisation, letter case and comment or whitespace placement",
"Tests contain a few mixed-operator expressions; grouping is a claim over all operator sequences.",
["vfilter.go","lambda.go"],[("participle grammar of _CommaExpression .. _Value","vfilter.go"),("vqlLexer","vfilter.go"),("ParseLambda, Lambda.Reduce","lambda.go")],observe=["expression values"])

p("C16","Formatting a parsed statement preserves its meaning",
"For every statement that parses, the text produced from the parsed statement (FormatToString) and by the reformatter (ReFormatVQL) parses again, evaluates to the same rows as the original, and formatting that text again gives the same text (formatting is idempotent). Column names derived from expression text are thereby stable.",
["programs","inputs"],"for every parsable statement, including quoted identifiers, LET parameters with defaults, nested subselects, slices, comments and long lines that are broken",
"Golden files fix the output for some 40 statements; that formatting loses nothing is a claim over all statements.",
["visitor.go","reformat/visitor.go"],[("Visitor.Visit*","visitor.go"),("ReFormatVQL","reformat/visitor.go")],observe=["formatted text","rows of the reparsed text"])

p("C17","A parsed query is reusable: repeated and concurrent runs agree",
"Evaluating a parsed statement does not change it: evaluating the same parsed object again on a fresh scope which offers the same functions and plugins, in any order relative to other scopes and from several goroutines at the same time, yields the same rows as evaluating a freshly parsed copy, with no data race. State that a run accumulates (aggregates, variables, destructors) stays in the scope it ran on.",
["schedules","histories","programs"],"for every statement, number of runs and interleaving of runs on different scopes",
"Tests parse each query and run it once; leftover state in the syntax tree only shows on the second or a concurrent run.",
["vfilter.go","lazy.go","functions/aggregates.go"],[("caches in _Value, _SymbolRef, Plugin, _AliasedExpression guarded by mu","vfilter.go")],state=[("function / split_symbol / cache / column_name","memoised per syntax node","vfilter.go")],observe=["rows of each run","race detector"])

p("C18","EXPLAIN only observes: same rows, and every row is accounted for",
"A SELECT prefixed with EXPLAIN emits exactly the rows it emits without it. When such a SELECT (without LIMIT) runs to completion, the explainer has been told of each source row exactly once and of each row rejected by WHERE exactly once, and, unless there is a GROUP BY, of each other row as emitted with its values exactly once, so emitted plus rejected equals source rows. EXPLAIN also covers the queries evaluated for it and never other statements.",
["programs","inputs"],"for every query shape and table",
"One golden test covers one explained query; accounting must hold for every query and row outcome.",
["explain/logging_explainer.go","vfilter.go","scope/scope.go"],[("Scope.EnableExplain/Explainer","scope/scope.go"),("Explainer calls in _Select.Eval/processSingleRow","vfilter.go")],observe=["Explainer callbacks","rows"])

p("C19","Response batches partition the query's rows in order",
"The batches delivered by GetResponseChannel, concatenated, are exactly the query's rows in order: parts are numbered consecutively from 0, every batch holds at most max-rows rows, all batches but the last are non-empty, TotalRows and Columns describe the payload, and the channel is closed after the last batch; when the query is cancelled they are its first rows. While the query goes on, a row it has produced is delivered after the maximum wait at the latest, whether or not more rows follow. OutputJSON delivers the same rows in one piece.",
["inputs","schedules"],"for every row count, batch size, row timing (including pauses longer than the maximum wait) and schedule",
"Tests use one small query and batch size; boundary sizes and timer interleavings are not sampled.",
["api.go","utils/dict/"],[("GetResponseChannel, ship_payload","api.go")],observe=["VFilterJsonResult values"])

p("C20","Built-in row sources emit exactly the rows they are defined to",
"chain emits each argument query's rows one query after another in argument order; if evaluates only the query selected by its condition and emits its rows; flatten emits, per row, one row for each combination of the elements of its array or query columns (an empty one leaves the cell as it is) with the other columns repeated; range(start,end,step) emits start, start+step, ... below end. Selecting from a variable emits a stored query's or materialized query's rows, an array's elements, or the value itself as one row; an unknown source emits no rows.",
["inputs","programs"],"for every argument combination, nesting and row content",
"Golden tests run two or three calls of each; combinations, empty and NULL inputs and nesting are not sampled.",
["plugins/","vfilter.go","protocols/protocol_iterate.go"],[("_ChainPlugin, _FlattenPluginImpl, _IfPlugin, RangePlugin","plugins/"),("Plugin.evalSymbol","vfilter.go"),("_SliceIterator","protocols/protocol_iterate.go")],observe=["rows"])

p("C21","Unbounded recursion is cut off; bounded recursion is exact",
"A LET expression or query which refers to itself once per level and never stops, directly or through others, still terminates without crashing the process: its recursion is cut off at some depth, and everything that does not depend on what is below that depth (the rows and values of the levels above, other statements) is as defined. Recursion that stays below a hundred levels computes exactly what its definition says.",
["programs","inputs"],"for every recursion pattern (direct, mutual, through expressions, subqueries and sources) and every depth",
"One golden query tests direct recursion; patterns and depths are not sampled.",
["scope/scope.go","vfilter.go"],[("Scope.CheckForOverflow, stack_depth","scope/scope.go"),("_SymbolRef.Reduce, Plugin.evalSymbol*","vfilter.go")],observe=["rows","process survival"])

p("C22","Call arguments reach plugins and functions typed, complete or refused",
"Extracting the arguments of a call into a declared argument struct succeeds exactly when every required argument is present, no undeclared argument is present and every value converts to its field's type; it then sets each passed field to the converted value and leaves the others untouched, and otherwise reports an error naming the argument. Extraction passes lazy and query-typed fields on without evaluating them or running them, any other argument of the call is evaluated exactly once, and the \"**\" argument stands for its dict's entries.",
["inputs","programs"],"for every combination of declared fields, passed arguments and value types",
"Tests extract some thirty literal argument lists; the contract quantifies over all combinations of field types and values.",
["arg_parser/"],[("Parser.Parse, BuildParser","arg_parser/parser.go"),("NormalizeArgs","arg_parser/args.go")],observe=["extracted struct, error, probe calls"])

p("C23","A saved scope restores to one in which queries give the same rows",
"Marshalling a scope and unmarshalling the result gives a scope in which every variable bound to plain data, a LET expression, a LET query (with its parameters and defaults) or a materialized query behaves as in the original: every query over those variables yields the same rows. Saving evaluates no definition, and the state of aggregate functions is not part of what is saved.",
["programs","inputs","histories"],"for every set of variables and every query over them",
"One test round-trips a small scope; equality must hold for all definitions and uses.",
["marshal.go","marshal/","scope/marshal.go"],[("Scope.Marshal/Unmarshal","scope/marshal.go"),("_StoredQuery.Marshal, StoredExpression.Marshal","marshal.go")],observe=["rows in the restored scope"])
p("C24","Sources are cut into the grammar's tokens; literals mean what they say",
"Tokenize returns every token and comment of a source, in order and nothing else: the token texts with the white space between them make up the source, each is classified by the first rule of the lexical grammar that matches there (comments, keywords as whole words in any letter case, operators, numbers, plain or back-quoted names, strings), and its start and end are the byte offset, line and column of its text; a source with a character that begins no token is refused, by the parser too. A literal evaluates, wherever it stands, to the value it denotes: decimal and hexadecimal integers exactly, decimal fractions as the nearest float, strings with their escapes (\\n, \\r, \\t, \\xHH, a backslash before any other character) decoded byte for byte, \'\'\' strings verbatim.",
["inputs"],"for every source text, including unfinished strings and comments, unusual spacing and letter case, and text outside ASCII",
"Golden tests tokenize a few queries; how neighbouring tokens, escapes, number forms and multi-byte text interact is a claim about all texts.",
["tokenizer.go","vfilter.go","utils/unquote.go"],[("Tokenize, findEndPos","tokenizer.go"),("vqlLexer, _Value.Reduce, maybeParseStrNumber","vfilter.go"),("Unquote","utils/unquote.go")],observe=["tokens, positions, values"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],"sentences",n)
