COMMON = ("Trusted: the engine's semantics of Go SSA and its stubs (checked by replaying every completed path "
          "natively), go/ssa, Z3. Outside the bounds nothing is claimed.")
NOT_APPLICABLE = []
PROPS = []

def prop(**kw):
    PROPS.append(kw)

prop(
    id="P01",
    title="Parsing accounts for every token of the command line, and never crashes",
    statement="For any flags, args and command line, parsing ends without a panic, and either every token is "
        "accounted for exactly once and in order by the recorded occurrences (as a flag name, a flag value, "
        "an arg value or the `--` separator), with no occurrence made up or dropped, or an error is returned that "
        "is a parse error.",
    over=["inputs", "configurations"],
    quant="all command lines, all positional layouts (fixed counts, 0/1, until-next-flag, take-rest) and parse modes",
    why="Tests parse a few dozen fixed command lines; the property is about every token sequence, including clusters, "
        "`=` in odd places, lone dashes and separators, under every layout and mode.",
    files=["set.go", "arg.go"],
    mech=[("raw parser", "set.go RawParse"), ("arg binding", "set.go argBinding"), ("arg counters", "arg.go ArgCount, Take/Done")],
    pkg="parse", harness=["HConserve1", "HConserve2", "HConserveLong"],
    bounds="16 positional layouts of up to 3 args x 4 parse modes with 2 tokens of up to 3 bytes (thorough: 5), and 3 tokens of up to 3 bytes (thorough: 4) with one layout, and one token of up to 5 further bytes after each of 8 starts; token alphabet `-=abslox`, flags of 5 kinds.",
)
prop(
    id="P02",
    title="The command-line grammar binds each token to the flag or arg it names",
    statement="A command line binds as the documented grammar says: `--name`, `--name=value`, `--name value`, `-n`, "
        "`-nvalue` and clusters of bool short flags name flags (by name or alias) and give them values, `--` ends flags, and "
        "the other tokens fill the args in order by their counts. Flags get exactly the values the grammar assigns, "
        "in order. A command line outside the grammar is refused with the right kind of error, naming the offending flag or arg "
        "and the arguments that remain.",
    over=["inputs", "configurations"],
    quant="all command lines, layouts and modes (flags allowed after args or not)",
    why="Tests fix the command lines; the grammar is a statement about all of them, and interactions between clusters, "
        "optional values, arg counts and `--` are what breaks.",
    files=["set.go", "arg.go", "flag.go", "option.go"],
    mech=[("raw parser", "set.go RawParse"), ("binding of flags and args", "set.go NewBinding"), ("arg counters", "arg.go ArgCount")],
    pkg="parse", harness=["HSyntax", "HSyntax3", "HSyntaxLong", "HReal"],
    bounds="16 layouts x 2 modes with 2 tokens of up to 4 bytes (thorough: 3 tokens of 3); 4 tokens of up to 2 bytes over 4 layouts; one token of up to 5 further bytes after each of 8 starts; the binding made from real flags and args with 2 tokens of up to 3 bytes (thorough: 4). Alphabet `-=abslox`.",
)
prop(
    id="P03",
    title="Right-to-left binding fills the rightmost args first",
    statement="When args each take one or at most one value, k values fill the first k args in order, or, with right-to-left "
        "binding, the last k args in order. It is an error exactly when there are more values than args or when an arg "
        "that needs a value is left without one. An optional arg takes the next value exactly if its function accepts it, and is passed over otherwise.",
    over=["inputs", "configurations"],
    quant="all sequences of required and optional args, all numbers and texts of values, with and without a program name",
    why="Tests fix a handful of layouts (cp-like SRC DEST); off-by-one errors show only for particular combinations of counts.",
    files=["set.go"],
    mech=[("right-to-left binding", "set.go RawParse, argBinding.next")],
    pkg="parse", harness=["HRTL", "HOptional"],
    bounds="1-4 args (thorough: 5), each required or optional, 0 to n+1 values of one arbitrary byte, optionally one leading flag, with and without program name; 1-2 optional args with or without a function and an arg for the rest, up to 3 values (4) of up to 2 bytes (3) over `@x`, a flag anywhere among them.",
)
prop(
    id="P04",
    title="Text converts to scalar values exactly, or is refused without effect",
    statement="Text given to an integer flag or arg of any width means the Go integer literal it spells; to a bool, the documented "
        "true and false spellings in any case; to a hex, octal or byte-length value, the number and unit written. Text that spells no value in the type's range is "
        "refused with an error and leaves the value as it was. Hex and octal values survive printing and parsing. Durations, IP addresses, URLs, regular expressions, big and floating-point numbers and types which read themselves from text mean what their own parser says of the text; a value of the right type given in code is taken as it is.",
    over=["inputs"],
    quant="all texts, all ten integer types and all ways of supplying text (string, bytes, reader)",
    why="Tests try a few numbers per type; truncation, range and prefix errors appear only at particular digits and widths.",
    files=["value.go", "value/value.go"],
    mech=[("conversion", "value.go Set, setDirect"), ("byte length", "value/value.go ParseByteLength")],
    pkg="values", harness=["HIntText", "HIntRange", "HIntBases", "HBool", "HHexOctal", "HHexText", "HByteLength", "HByteUnits", "HKinds", "HDirect"],
    bounds="texts of up to 4 bytes (thorough: 5; bool 5, 6) over the characters of the grammar; integers at all width limits with the last two digits arbitrary, in decimal, hex, octal, binary; hex/octal values of 16 arbitrary bits at 4 positions and both signs; byte lengths with every unit and two digits; durations of up to 3 (4) of 6 characters, IP addresses and URLs with 2 (3) arbitrary characters after prefixes, lists of regular expressions, big and floating-point numbers; 23 types of values given directly in 5 ways.",
)
prop(
    id="P05",
    title="Lists, maps, name-values and shell words survive escaping and splitting",
    statement="Splitting a list yields exactly the pieces between unescaped separators (a backslash before a separator makes it literal), at most "
        "n when n is given; items, map pairs and name=value pairs written with their separators escaped are read back unchanged. "
        "Arguments that are quoted and joined into a command line split back into exactly the same arguments.",
    over=["inputs"],
    quant="all item texts (all byte values for quoting), all limits",
    why="Tests split fixed strings; escapes next to separators, empty items and trailing backslashes combine in ways they never try.",
    files=["cli.go", "value.go"],
    mech=[("list splitting", "cli.go SplitList, SplitMap"), ("name-value", "value.go NameValue"), ("quoting", "cli.go Quote, Split, Join")],
    pkg="values", harness=["HSplitText", "HSplitRound", "HMapRound", "HPairs", "HQuoteRound", "HQuoteBytes", "HPairText"],
    bounds="texts of up to 7 bytes (thorough: 9) over `a,\\ `; 1-3 items of up to 3 bytes (4) with 3 separators; 1-2 pairs; name-values of up to 4 bytes (6), and their text and copies; 1-2 shell words of up to 3 bytes over quotes, escapes, blanks, globs, non-ASCII and invalid UTF-8; every single byte (every two bytes).",
)
prop(
    id="P06",
    title="Repeated occurrences replace, append or merge as the flag's options say",
    statement="After a run, a string or number flag holds its last occurrence (a string marked to merge holds its default and all occurrences, "
        "in order, separated by blanks), and a list or map flag holds exactly the items of all its occurrences in order, without the default unless it is merged or "
        "the flag is not given. With splitting disabled, an occurrence is one item.",
    over=["inputs", "histories", "configurations"],
    quant="all sequences of occurrences and texts, all combinations of the merge and splitting options, with and without a default",
    why="Tests check one or two occurrences per option; the state carried between occurrences matters.",
    files=["value.go", "flag.go", "option.go"],
    mech=[("occurrence reset and merge", "flag.go, value.go"), ("splitting", "value.go SplitList")],
    pkg="values", harness=["HOccurrences"],
    bounds="0-2 occurrences (thorough: 3) of texts of 2-3 bytes over the separators, 4 option sets, 4 value kinds, with and without default.",
)
prop(
    id="P07",
    title="A run executes each action once, in order, and stops at the first error",
    statement="A run executes the Uses of every command, flag and arg; then, for each command invoked on the command line, outermost first, "
        "the Before of the command, its flags and args, the Action of the flags (inherited ones included) and args that were given, "
        "the invoked sub-command or else the command's own Action, and then the After of the command, its flags and args. "
        "Actions which request or defer to a later timing run at that timing, before the target's own. Each runs exactly once for its target, "
        "nothing else runs, and an action that fails ends the run there, with its error.",
    over=["histories", "configurations", "faults"],
    quant="all combinations of given flags, args and invoked commands over three levels, and a failure at any one of the steps",
    why="Tests observe the order of a few actions in fixed apps; duplicates and omissions appear when flags are inherited, steps defer work or a step fails in the middle.",
    files=["action.go", "context.go", "command.go", "option.go"],
    mech=[("stages of a run", "context.go, action.go pipelines"), ("deferral", "context.go Do, action.go At"), ("inherited flags", "context.go, command.go")],
    pkg="app", harness=["HOrder"],
    bounds="an app with a sub-command and a sub-sub-command, with a flag on the first two levels and an arg on the third; each flag given or not at each level; 11 steps per target, any one of the 66 failing, or none.",
)
prop(
    id="P08",
    title="The value of an option comes from the source with the highest precedence",
    statement="A flag or arg gets its value from the command line if given there, otherwise from the first environment variable that is set and not empty, "
        "otherwise from its file, otherwise from what another option implies, otherwise its default; lower sources leave no trace (unless the option merges "
        "with its default, when the winning value is appended to it). It is known as implicitly set exactly when the value came from the environment, a file or an implication, "
        "and its Action runs exactly when it is given, or implicitly set with implied actions enabled.",
    over=["inputs", "configurations"],
    quant="all combinations of present sources and values, for flags and args of string, list, number and map type, with and without default and merging",
    why="Tests check sources pairwise with fixed values; the precedence is about all combinations.",
    files=["option.go", "flag.go", "arg.go", "action.go", "value.go"],
    mech=[("implicit values", "action.go, option.go"), ("reset of defaults", "value.go")],
    pkg="app", harness=["HPrecedence"],
    bounds="two environment variables (unset, empty, set), one file, one implying flag, the command line; values of one arbitrary character of an alphabet of 2-3 (invalid numbers included); all three places of the implied-action option.",
)
prop(
    id="P09",
    title="A command line runs exactly the command it names",
    statement="The word in the place of a command runs exactly the first sub-command with that name or alias, which gets precisely the arguments after it. "
        "When there is none, the handlers for missing commands are asked, latest first, until one handles it, and the command it provides runs once with the arguments; unhandled, "
        "the run fails with a command-not-found error naming the word, or with the error of the handler. "
        "A command that skips flag parsing gets all of its arguments as they are.",
    over=["inputs", "configurations"],
    quant="all names and aliases of commands, all words, all stacks of handlers, all arguments",
    why="Tests invoke a few fixed commands; ambiguity between names and aliases, and handlers which decline, fail or skip, combine.",
    files=["command.go", "set.go", "context.go"],
    mech=[("command lookup", "command.go"), ("missing commands", "command.go, context.go"), ("raw parsing", "set.go")],
    pkg="app", harness=["HDispatch", "HHandlers", "HSkipParsing", "HIntercept"],
    bounds="2 commands with names and aliases of up to 2 characters; up to 3 handlers (thorough: 4) of 6 kinds; up to 2 arguments (thorough: 3) of up to 3 bytes over `-=fa`, for the app and a sub-command.",
)
prop(
    id="P10",
    title="Hooks run for exactly the targets that match",
    statement="A path matches a pattern when the elements of the pattern match the last elements of the path, where `*` matches a command, `-` a flag, `<>` an arg, "
        "`<->` a value and anything else itself (a long flag also with one dash). A hook that a command registers for initialization, Before or After runs at that timing once for each target "
        "in that command (itself included) whose path matches its pattern, and for no other. A hook for a timing that is over, or on a value, is refused.",
    over=["inputs", "configurations"],
    quant="all paths and patterns, hooks at each site and timing",
    why="Tests match a few literal paths; suffix matching and the scoping of hooks are statements about all paths.",
    files=["context.go", "filter.go"],
    mech=[("path matching", "ContextPath.Match"), ("hooks", "context.go hooks")],
    pkg="app", harness=["HPathMatch", "HHooks", "HHookRefused"],
    bounds="paths of 1-2 elements (thorough: 3) of every kind with names of up to 3 characters; patterns of up to 2 elements (3), one of up to 4 arbitrary bytes over `-<>*ab`; 18 patterns x 4 sites x 3 timings x 3 invoked depths for hooks; registration on 5 kinds of elements, from 4 timings for 4, in 4 ways.",
)
prop(
    id="P11",
    title="Names resolve to the flag of the nearest command, wherever they are used",
    statement="A flag defined by a command can be given to it and, unless non-persistent, to its sub-commands, where a nearer command's flag with the name or alias takes precedence. "
        "What is not available is refused as an unknown option that is named. Each flag has the last value given to it at any level. Lookups of the value, the flag, whether and how often it was given and its raw "
        "occurrences, by name, dashed name, alias or rune, in the action of any command, flag or arg, all agree on that same flag.",
    over=["inputs", "configurations"],
    quant="all assignments of names, aliases and persistence to flags at three levels, all places to give them",
    why="Tests use distinct names; collisions between names and aliases at different levels combine in hundreds of ways.",
    files=["set.go", "context.go", "arg.go", "lookup.go"],
    mech=[("inheritance of flags", "set.go NewBinding"), ("lookups", "context.go LookupFlag, Value, Raw, set.go lookupValue")],
    pkg="app", harness=["HInherit", "HOptionLookup"],
    bounds="2-3 levels with a flag each, 2 names (thorough: 3) with 3 aliases or none, persistent or not, one of 3 names (or none) given at each level; lookups among an inherited flag, own flag and arg given 0-2 times with arbitrary values.",
)
prop(
    id="P12",
    title="Initialization covers each flag, arg and command exactly once",
    statement="When elements add or remove flags, args and commands (by name, index or pointer) during initialization, exactly the named one is added or removed, each flag, arg and command there in the end has been initialized exactly once, and "
        "exactly the flags there in the end can be used. Initialization fails when flags or args have duplicate names or a flag has no or an invalid name, and not otherwise; args without a name get one.",
    over=["histories", "configurations"],
    quant="all combinations of two changes made by any elements during initialization, all names",
    why="Tests add or remove one thing at the top level; changing a list while it is being walked skips, repeats or crashes only in particular positions.",
    files=["command.go", "context.go", "action.go"],
    mech=[("initialization of elements", "command.go initializeFlagsArgs, initializeSubcommands"), ("adding and removing", "context.go AddFlag, RemoveFlag etc."), ("names", "command.go finalizeArgsAndFlags")],
    pkg="app", harness=["HInit", "HNames"],
    bounds="an app with 2 flags, 2 args and 2 commands, of which up to two (or the app) add or remove one in every way, one of 2 flags (thorough: 4) then used; up to 3 (4) flags and args with names of up to 2 bytes over `12_= `.",
)
prop(
    id="P13",
    title="EachOccurrence runs the action once per occurrence, with that occurrence",
    statement="With EachOccurrence, the Action of a flag or arg runs once for each occurrence, in order, with that occurrence as its own value and raw text (merged with those before it, if merging), until one fails; it is in the action timing, so that actions nested in it run at once. "
        "Other lookups give the winning value, all raw occurrences and their count, during and after, as if the option were not used.",
    over=["inputs", "histories", "configurations"],
    quant="all sequences of occurrences, value types, merging, defaults and failures",
    why="Tests check the value in one or two calls; what leaks from one occurrence to the next or to other lookups is not observed.",
    files=["option.go", "flag.go", "arg.go"],
    mech=[("action per occurrence", "option.go eachOccurrenceOpt"), ("lookups of an occurrence", "flag.go wrapOccurrenceContext")],
    pkg="app", harness=["HEach"],
    bounds="0-3 occurrences (thorough: 4) of string, int, list, map and bool flags and args with 1-2 arbitrary characters each, with and without default and merging, failing at one of the first two or not. Not claimed: whether a merged default is part of the occurrences' own values.",
)
prop(
    id="P14",
    title="Expressions parse into their operators and yield values from one to the next",
    statement="The tokens of an expression arg are a sequence of operators, each a dash and a name or alias followed by its own operands as many as its args take; exactly those expressions are accepted, and others are refused "
        "before any action with the kind of error and the offending token. Evaluating runs the operators in order on each value, with every value an operator yields passed to the next operator and nothing else, "
        "each seeing its own operands, and the error of an operator is the error of the evaluation. A command given to an operator, flag or arg, as with find -exec, is exactly the tokens up to its ; or +, without which it is refused.",
    over=["inputs"],
    quant="all token sequences, values, and places of failure",
    why="Tests evaluate a few expressions; operands that look like operators, names of operands equal to those of operators, and repeated operators combine.",
    files=["extensions/expr/expr.go", "extensions/exec/arglist.go"],
    mech=[("parsing", "extensions/expr/expr.go parseExpressions"), ("evaluation", "extensions/expr/expr.go Expression.Evaluate"), ("operands", "extensions/expr/expr.go exprSet"), ("commands ending with ; or +", "extensions/exec/arglist.go ArgList")],
    pkg="expr", harness=["HExpr", "HExec"],
    bounds="up to 4 tokens (thorough: 5) of up to 3 bytes over `-abcdx` (not `--`), 4 operators with no, one, an optional and any number of operands, two initial values, failing at one of 3 values; commands of up to 3 tokens (thorough: 4) of up to 2 bytes over `-e;+`.",
)
prop(
    id="P15",
    title="Composed actions run once each, in order, at their timing, until one fails",
    statement="The actions of a pipeline, nested or derived from another by Append and Prepend, run in order until one fails, whose error is the result; a middleware decides whether and how often the rest runs; SuppressError hides an error. "
        "The parts of a Setup and actions added with At run once, at their timing, in the order of timings then of registration, and what comes too late is an error unless Optional. "
        "A recovered action's panic becomes the error of the run with its text and everything else still runs.",
    over=["inputs", "configurations", "histories"],
    quant="all trees of actions with failures and middleware, sequences of derivations, setups and timings, panics",
    why="Tests compose two or three actions; aliasing between derived pipelines, middleware inside nested pipelines and mixed timings show only in combinations.",
    files=["action.go", "context.go"],
    mech=[("pipelines and middleware", "action.go ActionPipeline, actionOf, Append, Prepend"), ("Setup and At", "action.go Setup, At; context.go timings"), ("Recover", "action.go Recover")],
    pkg="pipe", harness=["HPipe", "HAppend", "HSetup", "HTiming", "HRecover"],
    bounds="pipelines of up to 3 actions, one of which is a pipeline of one of 4 kinds with up to 2 (thorough: 3) actions or nil; 3 (4) derivations from pipelines of 1-4 actions; every Setup used at every timing on command, flag and arg; up to 4 actions over 5 timings; panics with texts of up to 3 bytes over `a%d` at command, flag and arg of the app or a sub-command.",
)
prop(
    id="P16",
    title="A prototype supplies what a flag, arg or command does not set itself",
    statement="Prototypes used by a flag, arg or command fill exactly the fields that it has not set, the first of several prototypes that has a field winning; its aliases, environment variables, options and data are added to those there; "
        "fields that the kind of element does not have are ignored. Their Setups run once each, in order and at their timing. When setup is prevented, nothing changes and nothing runs.",
    over=["configurations"],
    quant="all combinations of fields set or not by an element and two prototypes, for each kind of element",
    why="Tests set one field at a time with one prototype; a field that overwrites or that is lost shows only for particular combinations of element and prototypes.",
    files=["action.go", "flag.go", "arg.go", "command.go"],
    mech=[("prototypes", "action.go Prototype.Execute, copyToFlag, copyToArg, copyToCommand")],
    pkg="proto", harness=["HPrototype", "HMerged", "HShared"],
    bounds="flag, arg or command with two prototypes; each of 11 fields set or not (texts of one arbitrary byte) by each of them together with all others set or not; aliases, environment variables, data of their own and under a shared map, options; setup prevented or not; a prototype shared by two elements with others of their own.",
)
prop(
    id="P17",
    title="The help screen shows the command asked for and its visible elements once",
    statement="`--help` anywhere, and `help`, show the help of the command that is named, run no action, and fail naming the first name that is no command. The screen has the usage line and each flag, arg and sub-command that is not hidden exactly once, "
        "with the names it can be used by, its placeholder and its help text, under its category, sorted if asked for; what is hidden is never shown, and what is required is not shown as optional. The description of the command, or else its help text, and those of its visible elements are shown; its usage text, if it has one, is shown in lieu of the synopsis. The version and the license are printed as their template says, by whatever flag or command prints them, and nothing else runs. Wrapped text has the same words, in lines as long as fits.",
    over=["inputs", "configurations"],
    quant="all combinations of names, kinds, visibility, categories and texts of flags, args and sub-commands, all command lines that ask for help, and all texts to be wrapped",
    why="Tests look for a substring in the help of an app with one or two flags; what is missing, shown twice, in the wrong place or for the wrong command is not looked at.",
    files=["usage.go", "templates.go", "internal/synopsis/synopsis.go", "command.go", "flag.go"],
    mech=[("help screen", "usage.go DisplayHelpScreen; templates.go HelpTemplate, commandAdapter"), ("usage and names", "internal/synopsis/synopsis.go"), ("wrapping", "usage.go Wrap")],
    pkg="help", harness=["HWrap", "HFlag", "HFlags", "HPlaceholders", "HCommands", "HGlobal", "HArgs", "HTarget", "HDescriptions", "HUsageText", "HPrints", "HHelpOf"],
    bounds="one flag of 5 kinds with up to 3 names, 4 help texts and all options; 3 flags or sub-commands in 3 categories, hidden or not, with help or not, sorted or not; flags of parents; up to 3 args of 6 kinds; help texts of up to 6 bytes (thorough: 7) over `{}A1:`; descriptions of 4 kinds on a command and on one of its elements; "
        "command lines of up to 4 of 6 tokens (thorough: 5 of 8); wrapped texts of up to 6 bytes (8) over `ab \\n` and a control code, indents 0-2, widths 0-5; usage texts of up to 2 (3) bytes given in 3 ways, asked for in 4 ways; versions and licenses of 2 (3) bytes, 5 templates, printed in 5 ways; help of 7 named paths from 4 places. Blank lines and alignment of columns are not compared, and the last word of a line can exceed the width, as the tests have it.",
)

prop(
    id="P18",
    title="Shell completion suggests exactly what can come next, and runs nothing",
    statement="For the words so far and an incomplete word, completion suggests the visible sub-commands (with aliases) of the command in effect, the names of its visible flags, or the values of the flag or arg that the word is for, exactly those that start with the incomplete word; "
        "a value given after = or directly after a short name keeps this form, and a space is withheld just after =. A run that is asked by the shell for completions runs no action, exits with success whatever the words are, and writes four lines that aren't empty for each item.",
    over=["inputs", "configurations"],
    quant="all sequences of words, valid or not, all incomplete words, positions and completion items",
    why="Tests complete single words in apps with one or two flags; what has to be suggested depends on the whole command line, with commands, pending flags and invalid values before the word.",
    files=["completion.go", "completion_zsh.go", "command.go", "context.go"],
    mech=[("suggestions", "completion.go complete, CompletionValues; command.go defaultCommandCompletion, subcommandCompletion, findSolitaryMatch"), ("zsh", "completion_zsh.go GetCompletionRequest, FormatCompletions; command.go triggerRobustParsingAndCompletion")],
    pkg="complete", harness=["HComplete", "HZsh", "HFormat"],
    bounds="an app with 4 sub-commands, 2 levels deep, and flags with similar names; up to 2 of 12 words (thorough: 3) before a word of up to 3 bytes (4) over `-slonead=`, or `--lo` with these; in zsh, up to 2 of 4 words, a word of up to 2 bytes over `-slo`, any position from -1 to 4, "
        "a help text of up to 2 bytes and required flags and args or not; 2 items of 3 types with texts of up to 2 bytes, with blanks, line ends and quotes. What is suggested after an unknown flag, for excess operands, and for the help command isn't claimed.",
)

prop(
    id="P19",
    title="Files, file sets and file references use the given file system exactly",
    statement="A File performs each operation on its file system with just its name and arguments and returns its error, or an error with the path if that isn't supported; - is stdin and stdout and never a file. A file set has all files given and enumerates each of them, recursively if asked for, in order, until the function fails or stops. "
        "MustExist lets a run succeed exactly if all files given exist. With FileReference, or AllowFileReference and @, values are exactly the contents of the files named, one by one; other values stay as given, and a missing file is an error. A name-value pair that allows references keeps its name.",
    over=["inputs", "configurations"],
    quant="all names, file trees, operations, file systems with and without the optional operations, values, contents and stopping points",
    why="Tests look at single files in a full file system; names such as -, missing files, several values, plain file systems and contents with delimiters are combined nowhere.",
    files=["file.go", "action.go", "option.go", "value.go"],
    mech=[("delegation", "file.go File, fsExtensionWrapper, defaultFS, stdFile"), ("file sets", "file.go FileSet Do, All, SetData"), ("references", "action.go TransformFileReference, TransformOptionalFileReference, ValueTransform; set.go rawApplyToOption"), ("existence", "option.go mustExistOption")],
    pkg="files", harness=["HSet", "HLines", "HDelegate", "HDash", "HReference", "HPair", "HMustExist", "HGiven", "HWalk", "HParts"],
    bounds="file systems in memory with up to 6 files or directories, 3 levels deep; sets of up to 2 names of 4, stopped at any of 8 points in 3 ways, and walks of one of 4 names; names of up to 5 bytes (7) over `a./`; 13 operations on names of up to 2 bytes over `a/.-` with 3 kinds of file systems; lists of names of up to 6 bytes (thorough: 8); "
        "up to 2 values of up to 2 bytes (3) over `@f,b` with contents of up to 2 bytes (3); pairs of up to 3 bytes (4) over `n@f=\\,`. What is read from the disk through the os package (DirFS) is outside, as are blanks around the value of a pair.",
)

prop(
    id="P20",
    title="Bound functions get exactly the values given, once, and their errors end the run",
    statement="A function, action or evaluator bound with the bind package, Bind, BindIndirect, Indirect, Redirect or SetValue "
        "gets exactly the values that the named or numbered flags and args have (those of the expression operator when used on one), "
        "or the fixed value, as often as it is used and in order; values are set on other flags exactly. An error of a binder or of "
        "the function is the error of the run, and nothing after it is called.",
    over=["inputs", "configurations"],
    quant="all bound types, binders, targets, positions (flag, arg, command, operator), values and failing steps",
    why="Tests bind one type with one value; which value arrives, for every type, target and order of binders, and what happens "
        "when one of them fails is about all combinations.",
    files=["extensions/bind/binder.go", "extensions/bind/func.go", "action.go", "context.go", "internal/support/bind_support.go"],
    mech=[("binders", "extensions/bind/binder.go"), ("calls", "extensions/bind/func.go"), ("Bind, BindIndirect, Redirect", "action.go, context.go")],
    pkg="bnd", harness=["HFor", "HBool", "HCall", "HOperands", "HIndirect", "HRedirect", "HAccessory"],
    bounds="26 types of value with one text of up to 3 bytes; functions of up to 3 parameters with each kind of binder and one failing step; 2 operands and 2 args; values of up to 2 bytes.",
)
prop(
    id="P21",
    title="Every error is reported once, with its text and its exit status",
    statement="Exit makes an error with the exit status and text of its operands. When a run fails anywhere (parsing, a hook, an "
        "action, a sub-command), the error returned is the one that failed; Run reports it once, with its text and its exit status: "
        "that of the error or of one it wraps, 2 for a usage error, else 1. A usage error has the code and the name for what is "
        "wrong, in every form the flag can be given.",
    over=["inputs", "configurations"],
    quant="all operands of Exit, all failing stages, kinds of error and wrapping, all kinds of usage error and forms of flags",
    why="Tests check single errors at single stages; that no error is lost, doubled or given another status is about every stage "
        "and every form.",
    files=["error.go", "app.go", "set.go", "context.go"],
    mech=[("Exit, exit status", "error.go Exit, app.go exit"), ("parse errors", "error.go ParseError, set.go")],
    pkg="errs", harness=["HExit", "HRun", "HKinds"],
    bounds="up to 3 operands of 4 kinds with texts of up to 2 bytes; 8 failing stages x kinds of error; one error per run.",
)
prop(
    id="P22",
    title="A command executes only if what is required is given and all values are valid",
    statement="Actions run only if each required flag and arg is given, no two that exclude each other are, every value is among "
        "those of an Enum and passes its validators; else the run fails with a usage error which names what is wrong. All of this is "
        "left aside when a flag like --help, which exits, is used. Validators run once per target, before anything else acts on it.",
    over=["inputs", "configurations"],
    quant="all sets of required and exclusive flags and args, names and aliases, values, and uses on the command line",
    why="Tests check one required flag or one exclusive pair; which of all combinations is let through, or wrongly refused, is not "
        "settled by them.",
    files=["action.go", "context.go", "command.go", "error.go", "flag.go"],
    mech=[("required", "context.go checkForRequiredOption"), ("Mutex, Enum, ValidatorFunc", "action.go"), ("exits", "command.go exitsBeforeArgs")],
    pkg="errs", harness=["HEnum", "HMutex", "HRequired", "HExits", "HValidators"],
    bounds="up to 4 listed values with 2 values of up to 3 and 1 bytes (thorough: 4 and 3); 3 flags with any exclusions; 3 required targets over 2 levels of command.",
)
prop(
    id="P23",
    title="Colors and styles are written only where color is on and never change the text",
    statement="What is written with styles, colors, backgrounds and emoji (which count as codes) - by a Writer, a buffer or template functions - has the "
        "same text in the same order as without them; the codes are those of the named style and color, end with their text, and are "
        "there exactly if color is on. Color is on as last switched by SetColor, a Mode or the color flags, and otherwise exactly for "
        "terminals without NO_COLOR or TERM=dumb, for stdout, its buffers and templates alike.",
    over=["inputs", "configurations", "histories"],
    quant="all styles, colors, texts, nestings, kinds of writer, environments, and sequences of switches and flags",
    why="Tests render single styles in one mode; that none of the combinations of writer, style, switch and environment leaks codes "
        "or changes text is not settled by them.",
    files=["usage.go", "context.go", "extensions/color/color.go", "extensions/color/color_templates.go"],
    mech=[("writers and detection", "usage.go stringHelper, colorEnabled"), ("template functions", "extensions/color/color_templates.go"),
          ("flags and modes", "extensions/color/color.go")],
    pkg="style", harness=["HWriter", "HFuncs", "HFlags", "HTTY"],
    bounds="sequences of 3 operations on a writer (thorough: 4) with text of up to 1 byte; every template function with each of 8 styles and 17 colors and text of up to 2 bytes, color switched once; up to 2 flags; 2 switches (thorough: 3) in 4 kinds of output and 6 environments. The terminal is a pty natively and a file whose IsTerminal is true in the engine.",
)
prop(
    id="P24",
    title="A table has every cell once, in its row and column, and help has it too",
    statement="A table made with the template functions prints each header, footer and cell exactly once, in its row and column, "
        "with its text kept whatever styles are in it; text wider than a column is wrapped at blanks only, without loss, and "
        "only if wrapping is on; rows and headers follow in order. With tables in the help template, the help "
        "screen has the same flags, sub-commands and texts as without.",
    over=["inputs", "configurations"],
    quant="all cells, rows, headers, footers, formats, widths and help screens",
    why="Tests print one table per format; which cell lands where, for every shape of table and wide text, is not settled by them.",
    files=["extensions/table/table.go"],
    mech=[("table functions", "extensions/table/table.go"), ("help template", "extensions/table/table.go, template.go")],
    pkg="style", harness=["HTable", "HHelp", "HWide"],
    bounds="up to 2 rows (thorough: 3) of up to 2 columns with text of up to 1 byte, with 4 formats; wide text of up to 5 bytes (thorough: 7) in columns of 2 and 3; help of one command with 2 flags and 2 sub-commands.",
)
prop(
    id="P25",
    title="Providers and structures get exactly the name, arguments and values given",
    statement="A provider flag has the name given (or its default) and exactly the arguments given, by it or by flags for its arguments, in "
        "any order and number; with a registry, a name or argument it doesn't have is refused before any action, and New makes the "
        "provider from these and the defaults. Setting fields of a structure gives each the value its type gives the text, refuses "
        "text that isn't valid for it, and leaves other fields alone. The list has each provider once.",
    over=["inputs", "configurations", "histories"],
    quant="all names, arguments, defaults, orders of flags, registries, field types and texts",
    why="Tests set one provider or field at a time; which arguments survive several flags in any order, or reach a provider that "
        "hasn't got them, is about all sequences.",
    files=["extensions/provider/provider.go", "extensions/provider/context_services.go", "extensions/structure/structure.go", "internal/support/support.go"],
    mech=[("provider values and argument flags", "extensions/provider/provider.go Value"), ("registries", "extensions/provider/provider.go Registry"),
          ("fields", "extensions/structure/structure.go")],
    pkg="prov", harness=["HApp", "HList", "HFactory", "HStructure"],
    bounds="up to 2 flags (thorough: 3) with one argument of up to 1 (2) symbolic bytes; 3 providers in the list; 4 kinds of factory; 12 kinds of field with text of 1-4 bytes and up to 5 other settings. mapstructure is executed too, not modelled.",
)
prop(
    id="P26",
    title="Reading a value through a context gives what was set, whichever way it is asked",
    statement="Every getter of a context, by name, rune, alias with or without dashes, index, or the flag or arg itself, gives the value of the option if it is of the "
        "getter's kind: integers of any size, exactly when the number fits the one asked for; otherwise the zero value. The same holds for lookups in maps and functions. "
        "What isn't there gives zero values, no occurrences and false, and never a panic.",
    over=["inputs", "configurations"],
    quant="all numbers of every size, texts, floats, ways of naming an option and getters",
    why="Tests read one typical value with the getter of its own type; sizes at their limits, other kinds, and other ways of naming are combinations.",
    files=["lookup.go", "context.go", "value.go"],
    mech=[("getters", "lookup.go lookupInt, lookupFunc, LookupValues"), ("names", "context.go Value, Interface, lookupOption"), ("kinds", "value.go")],
    pkg="lookup", harness=["HLookupInts", "HLookupUints", "HLookupTexts", "HLookupFloats", "HLookupMissing"],
    bounds="all 64-bit integers and floats, in each of the kinds; texts of up to 2 (thorough: 3) symbolic bytes in the 14 other kinds; values and pointers in a map, a function, a flag or an arg, named in each of the ways; every getter for missing names of up to 2 (3) bytes, runes, options and indexes.",
)
prop(
    id="P27",
    title="A context knows where it is in the app, and finds what its path names",
    statement="A context's path, parents and lineage are those of the tree; its flags are its own and those inherited; following a path with FindTarget reaches what the tree has there, and the path of a target reaches "
        "it again; looking up flags, args and commands gives those of the nearest command that has them; Walk visits each command once, parents first, leaving out what is skipped and stopping at an error; data is that of the nearest level that has it.",
    over=["configurations", "inputs"],
    quant="all levels, timings, paths, names, places of skipping or failing and levels of data",
    why="Tests look up one name in one small app; shadowing, aliases, hidden and nested commands combine in any tree.",
    files=["context.go", "command.go", "flag.go", "arg.go", "lookup.go"],
    mech=[("paths", "context.go Path, FindTarget, ContextPath"), ("lookup", "context.go LookupFlag, LookupArg, LookupCommand"), ("walk", "context.go Walk"), ("data", "context.go LookupData")],
    pkg="nav", harness=["HLineage", "HFindTarget", "HLookups", "HLookupNames", "HWalk", "HData"],
    bounds="an app of three levels with 4 commands, flags and aliases at each, one of them shadowed or not, and args; every level and timing; paths of up to 2 (thorough: 3) steps of each kind; names of up to 3 (4) symbolic bytes over `-<>fxy`; a walk of 6 commands with every combination of skipping and failing; data at any of 4 levels.",
)
prop(
    id="P28",
    title="Features, filters and modes act exactly where they say",
    statement="The actions of a set of features run once for each feature in the set, the most specific combination first and each feature in one action only; a filter of kinds, timing, pattern or function runs its action exactly where it matches, "
        "and combinations match as their parts do; the text of a set of options, filter modes or a timing reads back as the same, whatever the blanks between.",
    over=["inputs", "configurations"],
    quant="all sets of features and combinations, filter modes and combinations, targets, and texts of sets",
    why="Tests use one feature or mode at a time; combinations of bits and overlaps of composite features are where it goes wrong.",
    files=["filter.go", "option.go", "action.go"],
    mech=[("features", "filter.go FeatureMap, decompose"), ("filters", "filter.go FilterModes, IfMatch, PatternFilter"), ("texts", "option.go MarshalText, filter.go UnmarshalText, action.go Timing")],
    pkg="modes", harness=["HFeatures", "HFilterModes", "HFilters", "HModeTexts"],
    bounds="7 maps of 3 or 4 features and all sets of 6 bits; each of the 64 filter modes at app, sub-command, flag and arg seen or not; a timing, function or pattern at each target and timing; texts of each timing, the 64 modes, and sets of up to 2 (thorough: 3) of 24 options, with blanks.",
)
prop(
    id="P29",
    title="Generating from a template makes exactly its files, and a dry run none",
    statement="Generating a template writes each of its files, under its expanded name in its directory, with exactly its contents and mode, makes the directories needed, and touches no other file; each file is reported once with what happened to it: "
        "create, overwrite, identical. A dry run, by its flag or field, reports the same files and changes nothing. Every file is closed. An error of a generator ends the run with it. "
        "A generator's own operations, of each kind, reach exactly the file named, with the name expanded in the working directory, after its directory was made if it needs to be.",
    over=["inputs", "configurations"],
    quant="all templates up to the bounds of files, nested directories, data and contents, existing files, working directories and failures",
    why="Tests generate one file in an empty directory; directories inside directories, files which exist, and dry runs combine.",
    files=["extensions/template/template.go", "extensions/template/context.go", "extensions/template/file.go"],
    mech=[("files", "extensions/template/file.go File, Contents"), ("directories and dry run", "extensions/template/context.go OutputContext"), ("data", "extensions/template/template.go Vars, Data")],
    pkg="gen", harness=["HGenerate", "HGenerateTwice", "HOutput"],
    bounds="one generator: file, or directories nested up to 2 deep, with 8 kinds of contents (text of up to 1 symbolic byte), plus one more file which may be the same; one file existing before; working directory or not; dry run or not; failures in 6 kinds of generator; 13 operations of a generator on 4 names, absolute, relative or with a template, in up to 2 directories. The file system is an in-memory stand-in. JSON contents, gofmt and go get are outside.",
)
prop(
    id="P30",
    title="What code sets up on an element is what it has, until it is too late",
    statement="The category, help, usage, manual and description texts of an app, command, flag, arg, operator or other value are those which are declared or were set last, by whichever action, setter, setup function or customization; no other element's change. "
        "Adding and removing flags, args, commands and aliases gives exactly those added and not removed, by name, alias, index or element; after initialization it fails and changes nothing. Data set on an element is what it has, and what is deleted is gone.",
    over=["configurations", "inputs"],
    quant="all sequences of edits up to the bounds, on all kinds of element, in all ways and timings",
    why="Tests make one edit on one kind of element; sequences of edits and their indexes, and each of the ways on each of the kinds, are combinations.",
    files=["context.go", "action.go", "command.go", "flag.go", "arg.go", "extensions/expr/expr.go"],
    mech=[("texts", "context.go SetHelpText, SetCategory..; action.go HelpText, Category.., FlagSetup, Prototype"), ("edits", "context.go AddFlag, RemoveFlag, AddArg, RemoveCommand..; command.go findCommandByName"),
          ("aliases", "context.go updateAliases"), ("data", "context.go SetData, LookupData")],
    pkg="edit", harness=["HTexts", "HEdits", "HAliases", "HMetadata"],
    bounds="up to 2 settings (thorough: 3) of the 5 texts in 4 ways with 1 symbolic byte on 6 kinds of element, read at each timing, directly or through Customize; up to 3 (4) edits of a command with 2 elements; up to 3 (4) edits of up to 2 aliases; up to 3 (4) settings of data.",
)
prop(
    id="P31",
    title="Operators evaluate as their functions say, and help lists them once",
    statement="An operator calls its function once for each value, with the value and context given, and passes on exactly what the signature of the function says: the value if there is no error and the result is not false, or whatever the function yields; "
        "errors of the function or of the next operator are the result. Walking an expression visits its bindings in order, those prepended first, until it is stopped. Operators added during initialization are initialized once and can be used; later it fails. "
        "Help has each visible operator once, in its category, with its names, args and text.",
    over=["inputs", "configurations"],
    quant="all kinds of function, values, results and failures; all sequences of operators, bindings and places of adding; all categories, texts and visibilities",
    why="Tests evaluate each kind of function once with success; failures of what follows, and bindings that are prepended or appended in any order, are combinations.",
    files=["extensions/expr/expr.go", "extensions/expr/context.go", "extensions/expr/templates.go", "internal/synopsis/synopsis.go"],
    mech=[("functions", "extensions/expr/expr.go EvaluatorOf, Predicate, Invariant, Error"), ("bindings", "extensions/expr/expr.go Walk, Bindings, Prepend, Append, NewBinding"),
          ("adding", "extensions/expr/context.go updateExprs"), ("help", "extensions/expr/templates.go, expr.go groupExprsByCategory, newSynopsis")],
    pkg="ops", harness=["HEvaluators", "HBindings", "HAdd", "HHelp"],
    bounds="20 kinds of function with any 64-bit value, 3 outcomes, yield failing or not; up to 2 operators (thorough: 3) and 2 (3) bindings added, stopped anywhere, 0-2 values; adding 1-2 operators in 5 places; help of up to 2 (3) operators in 3 categories, hidden or not, with aliases, 0-2 args and a placeholder, sorted or not.",
)

prop(
    id="P32",
    title="Directories, opened files and standard streams reach exactly the file named",
    statement="Each operation on a file of a directory's file system, or of a sub-directory's, is performed on the path of the file in that directory, an absolute name being itself, and gives the result of the operating system. "
        "A file opened with a context reads and writes as the file until the context ends, and from then on only fails with the error of the context. The standard streams as a file read stdin, write stdout, seek and read at offsets exactly if stdin does, and closing closes both, losing no error. An option for the working directory changes to the directory given before the action runs, or fails the run.",
    over=["inputs", "configurations", "faults"],
    quant="all names up to the bound, operations, sequences of reads, writes and ends of the context, and kinds and failures of streams",
    why="Tests open single files with a live context and plain buffers; each operation with each kind of name, and what happens after a context ended, are combinations.",
    files=["file.go"],
    mech=[("directories", "file.go dirFS"), ("contexts", "file.go contextFile, wrapContextFile"), ("streams", "file.go stdFile, defaultFS")],
    pkg="fsys", harness=["HDir", "HRename", "HAll", "HOpened", "HStd", "HWorkingDirectory"],
    bounds="13 operations on names with up to 3 (thorough: 4) symbolic bytes over `a./`, relative or absolute, in a directory or one of 3 inside; up to 3 (4) reads or writes of 0-2 bytes of 2 devices, the context ending at any point; 6 operations on 9 kinds of streams, each failing or not; a flag or arg for the working directory given up to 2 times with one of 5 (7) names. "
        "The system calls themselves are stand-ins of the engine, in which no file exists but /dev/zero and /dev/null; the replay uses the real ones on files that can't exist, so that nothing is changed.",
)

prop(
    id="P33",
    title="Printing, prompts and assertions do what they say, where they say it",
    statement="The print actions and methods write exactly the text which fmt makes of their operands, once per run of the action, to the given writer, or stdout, or (without a writer) stderr, and nowhere else; a failing writer is the error of the run. "
        "A prompt is written to stderr only, and the text is the next line of stdin without its newline and otherwise unchanged; another reader is refused and not read. "
        "An asserted action runs exactly if the filter (a kind of element, a timing, a function) matches its context; else it is an error with the path, the timing and the text of the filter, while a conditional action is skipped.",
    over=["inputs", "configurations", "faults"],
    quant="all operands, formats, writers that fail or not, lines of input, places and timings of the action, filters",
    why="Tests print a constant in one action; each way to print with each writer and each filter at each timing of each element are combinations.",
    files=["context.go", "action.go", "cli.go", "filter.go"],
    mech=[("printing", "context.go Print, Fprint, ...; action.go unwrapPrintFunc"), ("prompts", "cli.go ReadString, ReadPasswordString; context.go displayPrompt"), ("assertions", "action.go Assert, IfMatch, Timing.Matches; filter.go")],
    pkg="ctx", harness=["HPrint", "HPrompt", "HAssert"],
    bounds="6 ways to print up to 2 operands of 4 kinds (thorough: 6) with one arbitrary byte each and 3 formats to 3 writers, at 2 (4) places; up to 2 lines of up to 2 bytes and a rest, prompts of up to 2 bytes, 3 kinds of readers (reading a password from a terminal itself is outside); 14 filters at 4 timings of 4 elements.",
)
prop(
    id="P34",
    title="A context carries values, limits and elements to what runs within it",
    statement="A value, deadline or end set on a command's context is what everything that runs later within the command sees, sub-commands included, and nothing else does; an option's own is seen by the rest of the action. A time limit ends no earlier, and is released when the run ends. "
        "What a binding lookup gives for a name, an alias or the current option is exactly the occurrences on the command line, whole, as values, and by name. Actions appended with Use run once each after those before. The app finds exactly the elements it has, and is current while it runs. "
        "Each value provided for initialization is initialized once, in order, in its own context, can be looked up, and has what is set on it.",
    over=["inputs", "configurations", "histories", "faults"],
    quant="all values, points at which values are set and contexts end, command lines up to the bound, forms of actions, elements and names",
    why="Tests look at one value set in one place; which contexts share what is set is a statement about all pairs of places, and aliases, occurrences and forms of actions multiply.",
    files=["context.go", "action.go", "app.go", "command.go", "arg.go", "flag.go"],
    mech=[("contexts", "context.go SetContext, SetContextValue, Deadline, Done, Err; action.go Timeout"), ("lookup of bindings", "context.go BindingLookup, command.go commandContext, arg.go optionContext, flag.go wrapOccurrenceContext"),
          ("appending", "Use of App, Command, Flag, Arg, Setup, Prototype"), ("current app", "app.go CurrentApp"), ("values", "context.go valueTarget, LookupValueTarget; completion.go SetCompletion")],
    pkg="ctx", harness=["HScope", "HTimeout", "HBindings", "HUse", "HElements", "HTargets", "HValues", "HCompletion"],
    bounds="2 settings of 2 keys at 7 or 12 points with one arbitrary byte (thorough: in 3 ways), the context ending at any point; 5 time limits of an app and a sub-command (timers don't fire in the engine: no time passes); up to 2 (3) tokens of 5 kinds with one of 4 bytes, asked for by 9 names; up to 2 appended actions of 5 (10) forms on 6 elements, each failing or not; "
        "up to 2 (3) provided values on 4 elements; up to 2 (3) args; up to 2 settings of a completion in 4 ways on 4 elements. Values set while a sub-command is initialized are outside (they reach its parent, too).",
)

prop(
    id="P35",
    title="Each option of a flag, arg or command has exactly its effect",
    statement="With No, the mirror `--no-name` sets the flag to false, and each flag and mirror runs its action once with the value it has been given. An optional value is used when the flag is given without one, and only then. "
        "Visibility follows from the options that are set and, unless disabled, from the name. An action that is triggered or implied runs exactly when its trigger is there, and once. Without flags after args, what follows the first arg is args. "
        "A transformed occurrence is exactly what the transform gives for it, or its error. Implicit actions run in order, each seeing whether the value was set before it, whatever name is derived for variables and files.",
    over=["inputs", "configurations"],
    quant="all combinations of options, sources of values, names and kinds of flags and args, and all command lines up to the bound",
    why="Tests set one option on one flag; options combine with each other, with the sources of values, with sub-commands and with the order of tokens.",
    files=["option.go", "flag.go", "arg.go", "action.go", "set.go"],
    mech=[("options", "option.go builtinOptions, noOption; flag.go setOptionalValue"), ("implicit and triggered actions", "action.go Implicitly, FromEnv, FromFilePath"), ("transforms", "action.go Transform, ValueTransform; set.go rawApplyToOption")],
    pkg="opts", harness=["HNo", "HOptional", "HVisible", "HTrigger", "HFlagsAfter", "HTransform", "HImplicit"],
    bounds="up to 3 tokens (thorough: 4) with names of 3 layouts for mirrors; 7 kinds and up to 3 tokens for optional values; all combinations of options for visibility; 5 sources x 5 ways on flags and args for triggers; up to 3 (4) tokens of 6 in 4 modes on an app and a sub-command; "
        "transforms of up to 2 occurrences of 1 (2) bytes with 5 kinds of results and 6 kinds of values in 4 ways; 2 (3) implicit actions of 6 kinds in any order, 5 patterns of variable names and 4 layouts of names. `--` after a value is outside.",
)

prop(
    id="P36",
    title="The same command line has the same outcome every time",
    statement="Two runs of the same app with the same arguments set the same values in the same order, report the same error when several values are invalid and, with providers, name the same unknown argument, in whatever order maps are iterated.",
    over=["schedules", "inputs"],
    quant="all iteration orders of maps in either run, all command lines up to the bound, and flags and args with variables of their own or shared",
    why="Go randomizes the order of maps; a test that fails in one run of two is seen as flaky, and tests give one invalid value at a time.",
    files=["set.go", "extensions/provider/provider.go"],
    mech=[("applying occurrences", "set.go BindingMap.ApplyTo, BindingNames"), ("validation", "extensions/provider/provider.go validateArguments")],
    pkg="order", harness=["HApply", "HProvider"],
    bounds="2 tokens of 4 shapes with one of 2 characters, on an app (thorough: or a sub-command), with 3 ways to share variables; provider values with up to 3 arguments of 5. Every order of the entries of each map, from the end of initialization to the end of the run, in both of two runs.",
)
