import json
L=[]
INIT="sqlparams/__init__.py"; CV="sqlparams/_converting.py"; ST="sqlparams/_styles.py"; UT="sqlparams/_util.py"
def P(id,title,stmt,over,q,why,mech,files=None,state=None,obs=None):
    L.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files or [INIT,CV,ST],mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                   observe_at=obs or ["SQLParams.format() return value","SQLParams.formatmany() return value"],hook_needed=None)))
RX=("substitution of in-style matches by a replace callback per in/out kind","_converting.py: *.convert/convert_many, *.__regex_replace")
BP=("replay of the recorded conversions over a parameter set","_converting.py: *.__convert_params, *.__convert_many_params")
RE=("in-style regular expression","__init__.py: SQLParams.__create_in_regex; _styles.py: STYLES")
P("C01","A converted query means the same bound query",
 "For every pair of supported styles, every query and every parameter set that supplies all the parameters the query references, the conversion succeeds, and reading the returned SQL by the target style's rules with the returned parameters bound gives exactly the original query with the caller's values bound at the same places. Every returned parameter is referenced by the returned SQL, and parameters come back as a dict for named targets and a list for numeric and ordinal targets. (This presumes that the text around the placeholders contains nothing that the target style would itself read as a placeholder.)",
 ["inputs","configurations"],"all 81 style pairs, all options, all queries, all parameter sets, format() and formatmany()",
 "The tests convert a few fixed queries per style pair with one to three scalar or tuple parameters; repeated references, mixed shapes, empty results, adjacency and long lists over the nine converters are only sampled.",
 [RX,BP,RE])
P("C02","Text outside placeholders is preserved character for character",
 "Everything in the query that is not a recognised placeholder (or an enabled escape sequence or comment, or a percent sign that a percent target requires doubled) appears in the returned SQL unchanged, in order, exactly once. Each placeholder is replaced in place by the target's placeholder text, by a parenthesised comma-separated list of them, or by (NULL), and nothing else is added.",
 ["inputs","configurations"],"all queries, including quotes, backslashes, braces, control characters, non-ASCII text, and all configurations",
 "Tests compare whole outputs for a handful of short ASCII queries; they never vary the surrounding text.",
 [RX,RE])
P("C03","Percent signs are safe for percent-formatting targets",
 "When a style that does not use % is converted to format or pyformat, rendering the returned SQL with Python's %-formatting rules never fails and never binds at a wrong place: every literal % in the text is doubled and every undoubled % belongs to a placeholder with a supplied value. The rendered text is the original one with the values bound, whatever % sequences (%s, %(name)s, %%, %d, a trailing %) it contained.",
 ["inputs","configurations"],"all queries containing % in any arrangement, all non-percent sources, both percent targets, with and without escapes",
 "Tests use one or two fixed LIKE patterns; adjacency of % with placeholders, escapes and expansions is not explored.",
 [RE,("doubling of matched percents","_converting.py: out_percent branch of *.__regex_replace")])
P("C04","SQL text is independent of parameter values",
 "The returned SQL depends only on the configuration, the query, which parameters are supplied, and, for tuples being expanded, how many elements they have. Replacing any value by any other (strings that look like SQL or placeholders, falsy values, None, other types) leaves the SQL identical, and no value's text ever enters it.",
 ["inputs"],"all pairs of parameter sets of the same shape, for every query and configuration",
 "It is a two-run (noninterference) property; tests look at one run at a time with harmless values.",
 [RX])
P("C05","Exactly the referenced values are passed through, as the same objects",
 "Each value bound in a returned parameter set is the very object the caller supplied (or the very element of the tuple being expanded), never copied, converted, compared or dropped because of its type, truthiness or equality to another value. A supplied parameter that the query does not reference never appears in the result, and one referenced several times has the same value at each place.",
 ["inputs","configurations"],"all values (None, falsy, NaN, equal but distinct, lists, nested and named tuples) under all configurations and container types",
 "Tests compare with == on small ints and strings, so copies, coercions and swapped equal values are invisible.",
 [BP])
P("C06","Tuple expansion writes one placeholder per element, (NULL) when empty",
 "With tuple expansion in effect, every placeholder whose value is a tuple (subclasses included) becomes a parenthesised comma-separated list with one placeholder per element in order, or (NULL) for an empty tuple, and only its elements, not expanded further, are bound; values of any other type stay one placeholder. Expansion is in effect by default exactly for numeric and ordinal targets and can be switched either way for every target; when off, tuples are bound whole.",
 ["inputs","configurations"],"all tuple lengths, repeated and mixed references, all style pairs, the three settings of the option, format() and formatmany()",
 "Tests use lengths 0, 1 and 3 once per converter; repeated tuples, more than ten elements, nested tuples and several tuples in a query are not covered.",
 [RX,("default of expand_tuples","__init__.py: SQLParams.__init__")])
P("C07","Numeric targets number parameters 1..n by first use and reuse numbers",
 "For numeric and numeric_dollar targets the numbers in the returned SQL are 1..n without gaps, new ones appear in increasing order of first reference, every repeated reference to the same named or numeric parameter (or the same element of an expanded tuple) reuses its number, and distinct references in ordinal sources get distinct numbers. The returned list has exactly n entries, entry k-1 being the value of number k; a query with no parameters returns an empty list.",
 ["inputs","configurations"],"all reference patterns and tuple lengths for every source style, single and many rows",
 "Tests fix two or three reference patterns; the pattern space (repeats interleaved with tuples and empty tuples, ten or more parameters) is unbounded.",
 [("number allocation per converter","_converting.py: NamedToNumericConverter, NumericToNumericConverter, OrdinalToNumericConverter .__regex_replace"),BP],
 state=[("param_lookup","numbers already handed out in this call","_converting.py: *ToNumericConverter.convert")])
P("C08","Ordinal placeholders correspond to values by position",
 "For format and qmark targets the k-th placeholder of the returned SQL is bound to the k-th entry of the returned list, with one entry per occurrence even when a parameter is repeated or expanded. For format and qmark sources the k-th placeholder of the query takes the k-th supplied value, counting only real placeholders (not escapes or text).",
 ["inputs","configurations"],"all reference patterns, tuples and rows for every pair with an ordinal side",
 "Tests fix a few patterns; permutations with repeats and expansions are not enumerated.",
 [RX,BP])
P("C09","Named targets: keys match the SQL, names are kept and never collide",
 "For named targets the keys of each returned dict are exactly the names in the returned SQL, two different parameters or tuple elements never share a name even when a generated name equals one the caller uses, and an unexpanded named parameter keeps its name. Repeated references to one parameter (a number written the same way) use one name and one entry.",
 ["inputs","configurations"],"all names, including ones that look like generated names, all source styles, expansion on and off, repeated references",
 "Name collisions need adversarial names; tests use friendly ones.",
 [("generated names","_converting.py: *ToNamedConverter.__regex_replace"),BP])
P("C10","formatmany() equals format() applied to every row",
 "If converting a query with each row alone succeeds and gives the same SQL for all of them, converting it with all the rows together succeeds, returns that SQL once and a list with each row's converted parameters, in the same order and one per row. This holds for any iterable of rows, including one-shot iterators and generators, rows of mixed container types, and any number of rows (rows for a named_oracle source spelling their keys alike, no two keys of a row matching the same reference).",
 ["inputs","configurations"],"all queries, row sequences of any length and mix of container types, all configurations",
 "Tests use two or three rows from a list or simple generator for each converter; the relation over single and batch conversion is never stated.",
 [BP,("shared iteration of the first row","__init__.py: SQLParams.formatmany")])
P("C11","formatmany() refuses rows that do not fit the converted query",
 "When tuple expansion is in effect and a parameter was expanded from the first row, any later row whose value for it is not a tuple (TypeError) or has another length (ValueError), the empty tuple included, makes the whole call fail; so does a row of the wrong container type (TypeError) or one lacking a referenced parameter (KeyError or IndexError). Rows are never skipped, truncated or padded, and the failure does not depend on where in the sequence the row is; an empty sequence of rows is refused with ValueError.",
 ["inputs","configurations"],"all row sequences, every position of the bad row, every parameter of it, all converters",
 "Tests check one wrong length and one wrong type in the second row per converter.",
 [("row shape checks","_converting.py: *.__convert_many_params")])
P("C12","Escapes: enabled ones yield the literal text, disabled ones do nothing",
 "With escaping enabled, the escape text followed by the style's introducing character stands for that character alone: it is never a placeholder, needs no value, and (apart from percent doubling for a percent target) comes out as the bare character; everything else, including escape text before other characters, is untouched. With escaping disabled no character is removed; True selects the default escape (the introducing character itself) and a string selects itself, of any length.",
 ["inputs","configurations"],"all nine sources, default and custom escapes of any length and any characters, all arrangements of escapes, introducers and placeholders",
 "Tests have one escaped placeholder per style; runs of escapes, multi-character escapes and their adjacency are not explored.",
 [RE,("escape branch","_converting.py: *.__regex_replace")])
P("C13","Placeholders are recognised exactly where the style defines them",
 "Exactly the documented forms are treated as placeholders: the introducer followed by the longest identifier (ASCII letter or underscore first) or, for numeric styles, the longest digit run; %(name)s; %s; a ?; for named_oracle an identifier optionally in double quotes; and never when directly preceded by the same introducer (nor, for ?, followed by one). Anything else, such as :: casts, 12:30 in named styles, a bare introducer, %d or %(1)s, is ordinary text that needs no value.",
 ["inputs","configurations"],"all texts around and between introducers, in all nine styles",
 "Recognition is a language question; tests sample a few positive strings and very few near misses.",
 [RE])
P("C14","Comment stripping removes exactly the leading comments of lines",
 "With stripping on, exactly the comments of the configured styles that are the first non-blank text of a line are removed: a single-line one with its indentation and through its line break, a multi-line one through its end marker and a line break directly after it; an unterminated multi-line one and comment markers elsewhere on a line stay. Styles apply in the order given (True: /* */ then --), placeholders inside removed comments need no value, everything else is converted as if the comments had not been there, and with stripping off nothing is removed.",
 ["inputs","configurations"],"all arrangements of lines, blanks, markers and line breaks (LF, CRLF), all comment style lists",
 "Tests strip a few fixed queries; overlaps, nesting, CRLF, end of text and comments containing placeholders are not enumerated.",
 [("comment regular expressions","__init__.py: __create_strip_comment_regexes, __strip_comments_from_sql")])
P("C15","Byte queries convert exactly as their text does",
 "A bytes query gives a bytes result, a str query a str result, in both format() and formatmany(). The bytes result is byte for byte what converting the same characters (code points 0 to 255) as text would give, with equal parameters; any byte value may occur anywhere in the query (provided the converted text fits in code points 0 to 255 as well).",
 ["inputs","configurations"],"all byte strings, all configurations",
 "Tests convert one ASCII byte query per pair; non-ASCII bytes in text, names and comments are not covered.",
 [("latin-1 round trip","__init__.py: SQLParams.format, SQLParams.formatmany")])
P("C16","Calls on one instance are independent and leave their arguments alone",
 "Whatever was called before (including calls that failed) or is running at the same time on the same instance, from other threads or re-entrantly from within a parameter container, each call returns exactly what it returns on a fresh instance. No call modifies the query, the rows or their values, and a returned parameter collection is new: changing it affects neither the caller's arguments nor any other result.",
 ["schedules","histories","inputs"],"all interleavings of calls on a shared instance at parameter access granularity, all histories of successful and failing calls, all configurations",
 "The tests are sequential and make one call per instance.",
 [("per-call accumulators only","_converting.py: *.convert, *.convert_many"),("instance fields set once","__init__.py: SQLParams.__init__")],
 state=[("converter fields","configuration only; no call may change it","_converting.py: Converter.__init__")])
P("C17","Missing or ill-typed parameters fail loudly and precisely",
 "A call whose query references a parameter that the parameter set does not supply fails: KeyError for names and for numbers or positions looked up in a mapping, IndexError for numbers or positions outside a sequence (the number 0 included); a parameter set of the wrong container type fails with TypeError, as does a query that is neither str nor bytes. Nothing is defaulted, wrapped around or left unbound, while supplying extra parameters is always accepted.",
 ["inputs","configurations"],"all queries and parameter sets, every missing parameter, all configurations",
 "Tests check a few missing-key cases; off-by-one and negative addressing need boundary inputs per converter.",
 [RX,("container type checks","_converting.py: *.convert, *.convert_many"),("mapping to sequence","_converting.py: NumericConverter, OrdinalConverter")])
P("C18","Numeric and ordinal parameters: sequences and mappings address alike",
 "For numeric sources parameter n is element n-1 of a sequence, or the entry of a mapping under the key n or its decimal text; for ordinal sources the k-th placeholder is element k-1 of a sequence, or the entry under the key k-1 or its decimal text. A sequence and the corresponding mapping convert to equal results for every query; leading zeros in a number do not matter, other keys in the mapping are ignored, key order is irrelevant.",
 ["inputs","configurations"],"all numeric and ordinal sources, sequences and mappings of any type and size, all reference patterns",
 "Tests cover lists and one mapping per converter with two entries.",
 [("mapping to sequence","_converting.py: NumericConverter._mapping_as_sequence, OrdinalConverter._mapping_as_sequence")])
P("C19","Oracle names: unquoted ignore case, quoted are exact",
 "For named_oracle sources an unquoted name refers to the same parameter whatever its case and matches an unquoted key of any case or a quoted key in upper case; a quoted name matches only a quoted key of exactly that spelling or an unquoted key whose upper-case form it is. For named_oracle targets names and keys are both quoted when quoting is allowed and both bare otherwise, consistently in every dict returned; in formatmany() the first row decides how keys are spelled.",
 ["inputs","configurations"],"all spellings of names and keys, all targets, quoting on and off, expansion on and off, format() and formatmany()",
 "Tests cover a few spellings; the matrix of name case, quoting and key spelling with several similar keys is not enumerated.",
 [("oracle name matching","_converting.py: NamedTo*Converter.__regex_replace, _unquote_oracle_param, _quote_oracle_param")])
P("C20","Converting through an intermediate style changes nothing",
 "Converting a query from one style to a second and the result from the second to a third binds the same values at the same places of the same text as converting directly to the third, expansion being done at either hop; when the intermediate is a percent style reached from a non-percent one, the second hop is made with the default escape. (As in C01, the text must contain nothing that the intermediate or target style would itself read as a placeholder, nor percent signs when the first or the last style is a percent style.)",
 ["inputs","configurations"],"all 729 triples of styles, all queries and parameters, single and many rows",
 "Tests never feed one conversion's output to another; generated names, numbers and escapes must be readable back by every style.",
 [RX,RE,BP])
P("C21","An instance is configured exactly as asked and stays so",
 "The instance reports the styles, escape, expansion and comment settings actually in effect with the documented defaults resolved (no escape; expansion for numeric and ordinal targets only; no comment stripping; True selecting the style's own escape and the default comment styles), and conversions behave as reported. Unknown styles and settings of the wrong type are rejected at construction with KeyError or TypeError, construction leaves its arguments as they were, and the reported settings cannot be assigned and never change (as long as the caller leaves the list of comment styles he passed alone).",
 ["configurations","histories"],"all constructor argument combinations, before and after any calls",
 "Tests construct a few combinations and rarely read the settings back.",
 [("argument resolution","__init__.py: SQLParams.__init__"),("read-only properties","__init__.py: SQLParams properties")],files=[INIT,ST],
 obs=["SQLParams() outcome","SQLParams.in_style, out_style, escape_char, expand_tuples, strip_comments"])
P("C22","The caller's own failures come through and leave nothing behind",
 "When the caller's parameter container, its values or the iterable of rows raises an exception of its own while format() or formatmany() reads it (one that is not a lookup, type or attribute error or a StopIteration, which have a meaning there), the call fails with that very exception object: it is neither swallowed, nor replaced, nor turned into a result. Whatever the access at which it happened, the instance is as before, and every later or enclosing call on it returns exactly what it returns on a fresh instance; the arguments are untouched.",
 ["fault_sequences","histories","inputs"],"every access to every container, tuple and row iterable of every call, all configurations, alone, in histories and in nested calls",
 "Tests use dicts and lists, which never fail; a handler that is too wide or state kept from a call that broke off half way shows only when a chosen access fails.",
 [("accumulators are local to the call","_converting.py: *.convert, *.convert_many"),("first row taken before conversion","__init__.py: SQLParams.formatmany")],
 obs=["the exception SQLParams.format()/formatmany() raise","return values of later calls"])
P("C23","What kind of container the parameters come in does not matter",
 "The result of a call depends only on the entries of the parameter set, not on the container: any Mapping (dict and its subclasses, ordered, read-only, chained, user-defined with only the abstract methods) with the same entries in any order, and any Sequence (list, tuple and named tuple, deque, database row, user-defined) with the same elements give the same outcome, and for formatmany() the rows may come from any iterable (list, tuple, generator, one-shot iterator, view, user-defined). (The order of entries counts only where two keys address the same parameter.)",
 ["inputs","configurations"],"all container and iterable types, all key orders, all configurations, calls that succeed and calls that fail",
 "Tests pass dicts and lists (one named tuple) in one fixed order; assumptions about concrete types, about order or about iterating twice hold for those.",
 [("container checks and lookups by the abstract interface","_converting.py: *.convert, *.convert_many; _util.py: is_iterable, is_sequence"),("rows are taken once, in order","__init__.py: SQLParams.formatmany")])
P("C24","Every call comes to an end, whatever the text",
 "Every call of format() or formatmany() with finite arguments returns or raises. The work is bounded by a low power of the length of the query and the size of the parameters: no query, however many introducers, quotes, parentheses, blanks, escapes, digits or comment markers it repeats or leaves unfinished, keeps a call busy for more than a moment per thousand characters.",
 ["inputs","configurations"],"all query texts of up to thousands of characters, all escapes, comment styles and style pairs",
 "Tests use short, friendly queries; a regular expression that backtracks exponentially or a scan that does not advance needs a particular long text.",
 [RE,("comment regular expressions","__init__.py: __create_strip_comment_regexes, __strip_comments_from_sql")],
 obs=["SQLParams.format()/formatmany() return within seconds"])
P("C25","Nothing of a call is kept once it is over",
 "Once a call has returned or raised, the instance, its class and the package hold no reference to anything the caller passed or got: as soon as the caller lets go of them, parameter containers, rows, values, the iterable of rows, results and exceptions are freed, whatever the outcome of the call and however many calls follow. (Texts of queries and names may be remembered.)",
 ["inputs","histories","configurations"],"all calls on a shared instance, successful, refused or broken off at any access, all configurations and containers",
 "Tests look at results only; a parameter set kept alive by a cache, an attribute or a stored exception changes none of them.",
 [("accumulators are local to the call","_converting.py: *.convert, *.convert_many"),("nothing stored per call","__init__.py: SQLParams.format, SQLParams.formatmany")],
 obs=["weak references to what was passed to and returned from SQLParams.format()/formatmany()"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in L))
