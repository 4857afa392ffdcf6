T = "TLA+ operational semantics; TLC validates recorded executions of generated programs against it"
N = ("Every execution of the generated programs is validated by TLC against spec/VQL.tla: %s. "
     "Bounded by the generator (tables of at most 12 rows, expression depth 3-4, integers and multiples of 1/64); "
     "trusts the harness's rendering of programs and recording of rows and events.")
L = "model_checking"
TABLE = {
    "C01": (T, L, N % "the rows of every SELECT must be the specified ones, in order"),
    "C02": (T, L, N % "grouped rows and their aggregates must be the specified ones, in order"),
    "C03": (T, L, N % "sorted rows must be the specified ones, up to the order of ties"),
    "C04": (T, L, N % "limited rows must be the specified prefix and no goroutine may remain"),
    "C05": (T, L, N % "after a cancellation at a random row or event the rows must be a prefix of the specified ones, no goroutine may remain, every evaluation's context must end with the query's and every destructor must have run"),
    "C06": ("TLA+ model of scopes at the granularity of their locks, checked exhaustively by TLC against abstract rules; TLC validates recorded single- and multi-threaded histories of the real scopes against the machine and the rules", L,
            "ScopeImpl.tla obeys ScopeRules.tla for 2 threads, 2 operations each (3 operations, 3 scopes, 3 destructors when thorough). Recorded histories: random operations, also inside destructors, must be runs of the machine in ScopeCheck.tla (exact up to the order of siblings); histories of 2-4 threads obey ScopeRules.tla. Threads are scheduled by the Go runtime: an interleaving that needs a rare preemption can be missed."),
    "C07": (T, L, N % "rows and probe events of foreach must be the specified ones (as a bag with several workers); the worker pool is a separate model (PoolImpl.tla refines Pool.tla, exhaustively for 3-4 rows and 1-3 workers) and recorded runs with controlled overlap must be behaviours of it"),
    "C08": (T, L, N % "values of aggregate calls in every position must be the specified ones"),
    "C09": (T, L, N % "values and evaluation events of LET definitions must be the specified ones"),
    "C10": (T, L, N % "arguments, defaults and evaluation counts of LET calls must be the specified ones"),
    "C11": (T, L, N % "every name must resolve as specified"),
    "C12": (T, L, N % "the bag of evaluation events must be the specified one"),
    "C13": ("TLA+ algebra of the comparison operators, checked exhaustively by TLC; TLC validates the recorded operator table of the engine against it", L,
            "The laws are checked by TLC on every pair of a finite value universe of the specification; the engine's results on every pair of a pool of Go values of all types are validated against the laws and against the specification. Bounded by the pool; integers within signed 64 bit, floats within 2^53."),
    "C14": (T, L, N % "values of operator, index, slice and member expressions must be the specified ones"),
    "C15": ("TLA+ reference grammar over tokens composed with the TLA+ semantics; TLC validates recorded values of generated token sequences against it", L,
            "Every token sequence, written with random case, whitespace and comments, is parsed by the TLA+ grammar and evaluated by the specification, and the engine's value must be that one: every pair of operators, a third of the triples (all when thorough) and random expressions of up to 60 tokens; also whole programs written with random layout."),
    "C16": (T, L, N % "the text of FormatToString and of ReFormatVQL (sources with comments, long lines and strings of several lines) must parse, evaluate as the original's specification and format to itself"),
    "C17": (T, L, N % "the same parsed statements are run five times, on fresh scopes, one after the other and from four goroutines, and every run must give the rows and events specified for one; a part runs under the race detector and any data race counts"),
    "C18": (T, L, N % "programs with EXPLAIN on some statements must give the specified rows, and what the explainer is told, and the logging explainer logs, must be the specified events, none for other statements"),
    "C19": ("TLA+ model of the batching goroutine, refining an abstract specification, checked exhaustively by TLC; TLC validates recorded runs against the abstract specification", L,
            "BatchImpl.tla refines Batch.tla for 5-8 rows and batches of 1-3 with any timing, and delivers every row. Recorded runs of GetResponseChannel (batch sizes around every boundary, waits of 0, 1 and 100 s, silent and trickling sources, slow readers, cancellations) must be behaviours of Batch.tla; generated programs read through GetResponseChannel and OutputJSON must give the rows of spec/VQL.tla. A row is late when it is not delivered 1.3 s after the maximum wait, in three runs out of three."),
    "C20": (T, L, N % "rows of chain, if, flatten, range, foreach and variables must be the specified ones"),
    "C21": (T, L, "Generated programs whose definitions refer to themselves once per level (directly, mutually, through expressions, sub-queries, sources and default arguments), with a bound or without one, are run by the engine in processes that must survive. TLC evaluates spec/VQL.tla with a cut off at several depths, with nothing and with something below it; what all of these agree on, and everything of a bounded recursion, must be what the engine gave. Bounds up to 100 levels; definitions that refer to themselves twice per level take exponential time by their meaning and are left out."),
    "C22": ("TLA+ contract and TLA+ model of argument extraction, checked exhaustively by TLC; TLC validates recorded calls against the contract", L,
            "ArgImpl.tla, the extraction step by step, meets ArgRules.tla for every 2 fields (3 when thorough) of 8 types and arguments. Recorded calls of functions and plugins with generated argument structs (1-5 fields of 16 types, reflect.StructOf) and generated arguments (plain values in many Go types, expressions, arrays, queries, **) must obey ArgRules.tla: outcome, error, converted values, untouched fields, number of evaluations. How values without an obvious form as text, dict or list are converted is left open."),
    "C23": ("TLA+ model of saving and restoring, checked exhaustively by TLC; executions that are saved and restored between statements are validated by TLC against spec/VQL.tla", L,
            "SaveImpl.tla: for every scope of 2 names (3 when thorough) and 3 frames with data, NULL, definitions and host values, in every order of restoring, names mean what they meant. Generated programs are run with the scope saved as JSON and restored into a new one between statements (before the first query, or before every statement); rows and probe events must be those spec/VQL.tla gives to the program, and nothing may be evaluated by saving. Recorded round trips of plain data (exact integers and floats, text, arrays, dicts, shadowed, ignored and host names) must obey SaveCheck.tla. Infinite floats, invalid UTF-8 and Go types without a JSON form are left out."),
    "C24": ("TLA+ specification of the lexical grammar, its guarantees checked exhaustively by TLC; TLC validates recorded token lists and literal values against it", L,
            "VQLLex.tla, the lexer over characters with the values of literals. LexModel.tla: on every source of up to 3 (4 when thorough) pieces from two alphabets the tokens partition the source, do not depend on what surrounds them, and cut no word. Recorded results of Tokenize and MultiParse on random sources (keywords, numbers, strings, comments and stray characters with and without space between them, text outside ASCII) and of evaluating random literals in twelve contexts must be those specified. Floats are compared where 15 digits decide them; leading zeros, numbers out of range, a cut \\x and invalid UTF-8 are left open."),
}
NA = {}
