"""Single source of properties.jsonl and MANIFEST.json: python3 tools/gen.py rewrites both."""

H, A, E, B, F = "histbook/hist.py", "histbook/axis.py", "histbook/expr.py", "histbook/book.py", "histbook/fill.py"
I, J, C, V, T = "histbook/instr.py", "histbook/proj.py", "histbook/calc/__init__.py", "histbook/vega.py", "histbook/export.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))


COMMON = (" Static: an abstract interpreter reads the package's syntax trees and never imports or runs it. The result covers every value represented by the abstract "
          "inputs of each listed context (regions, symbols), but shapes, numbers of bins and option combinations are the finite family named in the evidence file. "
          "Trusted: the models of Python builtins and numpy operations, and the oracle in the property module. Constructs the analyser cannot model leave the "
          "obligation undetermined (reported, never counted as held).")

prop("C01", "Every entry lands in exactly the bin whose label contains it",
     "For every axis kind and every choice of underflow, overflow, NaN and edge-closure options, each filled value is counted in exactly the one bin whose published label (interval, integer, boolean or group key) contains that value. "
     "A value that no bin of an axis contains (an excluded overflow, an excluded NaN) is counted nowhere, and never in a neighbouring bin. "
     "This includes values on bin edges, infinities, NaN and values far outside the axis range, in fields of any integer, boolean or floating-point type.",
     ["inputs", "configurations"], "all real, infinite and NaN field values; all axis kinds with all flag combinations",
     "Tests fill a handful of values into a few flag combinations; edge values, infinities and values beyond 32-bit range need every combination.",
     [C, A, E, I, H, F], [("binning functions", C), ("axis to expression translation", A + " _goal methods"), ("index combination and counting", H + " fill/_postfill")],
     "interval/region abstract interpretation", "Every region of the real line that the bin labels distinguish, plus each edge, NaN and both infinities, is pushed through fill as an interval; the cell that grows is compared with the published label." + COMMON)

prop("C02", "Filling accumulates exactly the documented statistics",
     "After any sequence of fills each bin holds the number of its entries, or for weighted histograms the sum of weights and the sum of squared weights, and for each profiled expression the weighted sum and weighted sum of squares of its values. "
     "Filters act as weights of 0 or 1, NaN weights count as zero, and filling data in several pieces gives the same content as filling it at once. "
     "This holds for fields of any integer, boolean or floating-point type. Single numbers are broadcast along arrays, and fields given by keyword take precedence over those given by position.",
     ["inputs", "histories"], "all weights and profile values; all splits of the data into fills; all combinations of axes, profiles, weight and filter",
     "Tests compare a few numbers for a few axis combinations; the sums must be right for every weight and value and every partition of the data.",
     [H, I, C, A], [("fill, _postfill", H), ("instruction scheduling", F + ", " + I)],
     "value-number abstract interpretation (symbolic cell terms)", "Each entry carries symbolic weight and profile values; the terms in each cell must equal the reference sums." + COMMON)

prop("C03", "Tables report every bin's statistics correctly",
     "The table of a histogram lists, for every bin in axis order, the count, its error, and the mean and standard error of each profile, computed from that bin's own entries. "
     "Options select only the requested columns and normalisation or effective-count options change only what they say; listing a table gives one row per published bin label. "
     "Bins without entries, and all bins of unfilled histograms, are listed as zeros.",
     ["inputs", "configurations"], "all bin contents; all axis combinations and table options",
     "Tests check a few tables with simple integer contents and few options; wrong pairing of columns and cells shows only with asymmetric contents.",
     [J], [("table", J)], "value-number abstract interpretation",
     "Every cell is a distinct symbol, so a column computed from another cell, profile or weight is refuted." + COMMON)

prop("C04", "Histogram arithmetic acts bin by bin",
     "Adding two histograms with equal axes gives, bin by bin, the sum of all their statistics, keeps groups present in only one operand, and treats an unfilled histogram as empty; multiplying by a number multiplies every statistic by it. "
     "The in-place forms give the same content in the same object, and operands that are not modified in place keep their content. "
     "Histograms that differ in any axis parameter, or in being weighted, and other types are refused and left unchanged.",
     ["inputs", "histories"], "all bin contents and factors; all combinations of filled, unfilled and differently grouped operands",
     "Tests add a few filled one-dimensional histograms; unfilled operands, groups on one side only and refused combinations are combinations they do not reach.",
     [H, A], [("__add__, __iadd__, __mul__, __imul__, __rmul__", H), ("axis equality", A)], "value-number abstract interpretation",
     "Cells are distinct symbols; results must be the sum or multiple terms." + COMMON)

prop("C05", "Derived histograms are independent of their source",
     "A histogram obtained from another one by copying, clearing into a new one, weighting, filtering, systematics, arithmetic, projection, dropping, selection, rebinning, grouping or serialisation shares no changeable state with it. "
     "Whatever is later done to either of them (filling, in-place arithmetic, clearing, attaching or detaching metadata) leaves everything observable about the other unchanged; values that a user attaches are passed along as they are. "
     "The same holds for the objects a caller passed in to build a histogram.",
     ["histories"], "all sequences derive-then-change over all deriving and changing operations, in both directions",
     "Tests derive histograms and look at the result at once; sharing shows only when one of the two is changed later.",
     [H, A, V], [("copy, weight, filter, systematic, +, *, project, select, rebin, group", H)], "ownership/alias analysis with write effects",
     "For every pair of deriving and changing operation the abstract heap is compared before and after." + COMMON)

prop("C06", "Copy-on-fill copies behave like immediate copies",
     "A copyonfill() copy of a histogram holds the content the original had when the copy was made, whatever is done afterwards to the original, to the copy, or to copies of copies. "
     "Filling, in-place arithmetic, clearing and grouping of any of them is seen in that histogram alone, in every order. "
     "The same holds for copyonfill() of a whole book.",
     ["histories"], "all orders of copyonfill, fill, in-place arithmetic, clear, togroup and reads over an original, its copies and copies of copies, filled or unfilled",
     "Tests fill a copy once; sharing of content shows only in particular orders (changing the original first, a copy of a copy, changes other than fill).",
     [H, F, B], [("copyonfill and every change of content", H), ("_prefill", H)], "ownership/alias analysis over operation histories",
     "All histories of the evidence file's depth are replayed on the abstract heap and compared with the reference in which each copy is immediate." + COMMON)

prop("C07", "Book arithmetic and copies act histogram by histogram",
     "The sum of two books holds, at every path, the sum of the histograms found at that path in both, or a copy of the one found in only one of them; a multiple of a book holds the multiples. "
     "In-place forms give the same content, operands that are not modified in place are unchanged, and other types are refused. "
     "Books obtained by copying, clearing, arithmetic, grouping or serialisation share no histogram, member list or attachment dict with their source, so that later changes of one are never seen in the other.",
     ["inputs", "histories"], "all bin contents, all overlaps of member paths, all derive-then-change sequences",
     "Tests add books with the same members and do not change either operand afterwards.",
     [B, H], [("__add__, __iadd__, __mul__, __imul__, copy, cleared, copyonfill, group", B)], "value-number abstract interpretation and ownership analysis",
     "Cells are distinct symbols, members overlap in every way of a small family, and the abstract heap is compared before and after each later change." + COMMON)

prop("C08", "Filling never changes or keeps the caller's data",
     "Filling a histogram or a book leaves every array, sequence and dict that the caller passed exactly as it was, whatever expressions, axes, weights and filters are computed from them. "
     "Nothing of the caller's data is kept after the fill: overwriting the arrays afterwards changes neither the histogram nor the result of later fills.",
     ["inputs", "configurations"], "all recognised operators and functions, all axis kinds and options, all ways of passing the data",
     "The scheduler computes intermediate results in place to save memory; whether it may do so depends on the expression, and tests sample few expressions and do not look at the inputs afterwards.",
     [I, C, F, H, E], [("in-place evaluation and scheduling", I), ("calculation functions", C), ("array conversion and broadcasting", F)], "write-effect and escape analysis",
     "The caller's arrays are tracked storage on the abstract heap; any path that writes to one is reported." + COMMON)

prop("C09", "Reading never changes what is read",
     "Listing tables, projecting, selecting, rebinning, comparing, printing, serialising, asking for axes, fields, keys or content, and every other reading operation leaves the histogram or book exactly as it was, including whether it counts as filled and whether it equals a twin. "
     "Asking twice gives the same answer, and a later fill gives what it gives without the read.",
     ["histories", "configurations"], "all reading operations on all kinds of histograms and books, filled and unfilled, followed by repeated reads and fills",
     "Tests read a histogram once and look at the result; that a read has changed the histogram shows only in later operations.",
     [H, J, A, B, T], [("table, project, drop, select, rebin, fraction", J), ("JSON, equality, __getitem__, groupkeys", H)], "write-effect analysis",
     "The complete observable picture before and after each read must be the same term structure." + COMMON)

prop("C10", "Histograms survive JSON and pickle round trips",
     "Writing a histogram with tojson (also as JSON text or a file) or pickling it, and reading it back, gives a histogram with the same axes, weight, filter, definitions, attachment and fields and the same content in every bin, equal to the original, and filling both alike afterwards keeps them equal. "
     "This holds for all axis kinds and options, filled and unfilled, with any number of groups, profiles, weights and NaN or infinite group bins.",
     ["inputs", "configurations", "histories"], "all bin contents; all axis kinds and options, filled and unfilled; every serialisation route, followed by further fills",
     "Tests round-trip a few histograms and compare the axes; a statistic, flag or option that one route forgets shows only for the configuration that uses it.",
     [H, A], [("tojson, fromjson, __getstate__, __setstate__", H), ("_tojson, _fromjson", A)], "value-number abstract interpretation of serialisation routes",
     "The complete public picture must be the same terms after the route." + COMMON)

prop("C11", "Axes keep their parameters through every operation that copies or converts them",
     "Every axis kind keeps all of its parameters and bin labels when it is copied, relabelled (except for the expression), written to JSON and read back, pickled, evaluated from its repr, or used in a histogram. "
     "What an axis publishes (number of bins, edges, flow bins, closure, bin widths, labels, range of the finite bins) is what it was constructed with, and all of its descriptions agree with one another.",
     ["inputs", "configurations"], "all axis kinds, numeric parameters and flag combinations; all copying and converting operations",
     "Tests convert a few axes with default options; forgetting one non-default option in one of the many copying methods goes unnoticed.",
     [A, H], [("copy, relabel, tojson, fromjson, repr, keys, items of each axis class", A)], "parameter dataflow analysis", "Symbols and awkward constants are followed from the constructor through each route to every public attribute." + COMMON)

prop("C12", "Books survive JSON and pickle round trips",
     "Writing a book of any type with tojson (also as JSON text or a file) or pickling it, and reading it back, gives a book of the same type with the same member names in the same order, the same nested books and histograms with the same content, definitions and attachments. "
     "Filling or changing the result afterwards does what it does to the original.",
     ["inputs", "configurations", "histories"], "all bin contents; all book types, nestings and attachments; every serialisation route, followed by further fills and changes",
     "Tests round-trip few books and look at little of the result.",
     [B, H], [("tojson, fromjson, __getstate__, __setstate__", B)], "value-number abstract interpretation of serialisation routes", "The picture of the tree must be the same terms after the route." + COMMON)

prop("C13", "Projecting and dropping keep exactly the remaining statistics",
     "Projecting a histogram onto some of its axes, or dropping the others, gives a histogram with exactly the kept axes in which each bin is the sum over all bins (flow bins and groups included) of the dropped axes, for every statistic. "
     "Dropping a profile removes only that profile's statistics; weight, filter and remaining profiles keep theirs, whatever the kinds, number and order of the axes, also for unfilled histograms. "
     "Nothing is lost or counted twice, so that the total is conserved.",
     ["inputs", "configurations"], "all bin contents; all axis combinations and subsets to keep, by name, object or position",
     "Tests project a few histograms with one kind of axis; mixing up positions of axes, columns and group levels shows only in asymmetric combinations.",
     [J], [("project, drop", J)], "value-number abstract interpretation", "Every cell is a distinct symbol, so each result cell reveals which cells were summed." + COMMON)

prop("C14", "Selections keep exactly the bins that the condition describes, or are refused",
     "select keeps exactly the bins all of whose values satisfy the condition, with their content and labels unchanged and all other axes whole, and removes those none of whose values do. "
     "A condition that cuts through a bin (a threshold away from the edges by more than the tolerance, or the wrong kind of inequality) is refused, and a condition aligned with the bins is accepted, including conjunctions over several axes, alternatives of groups, and comparisons with NaN and infinity. "
     "The source is unchanged, and later fills of the result go by its labels.",
     ["inputs", "configurations"], "all bin contents; all axis kinds and flag combinations; all comparisons with thresholds on, between and outside the edges, NaN and infinity",
     "Tests select on few axes with simple thresholds; off-by-one slices with particular flow bins need every combination of flags, comparison and threshold.",
     [J, A, E], [("select, _select, _selectaxis", J), ("_select of each axis class", A), ("condition normalisation", E)], "value-number abstract interpretation with a label oracle",
     "Bins are classified as inside, outside or cut by the condition from their labels alone; the result must hold exactly the inside cells." + COMMON)

prop("C15", "Rebinning merges whole bins and loses nothing that the new bins cover",
     "Rebinning an axis to a subset of its edges, or by a factor, gives an axis with exactly the requested edges, and each bin of the result holds the sum of all statistics of exactly the old bins it covers. "
     "With underflow and overflow bins, everything beyond the outermost new edges ends up in them; the NaN bin, groups and all other axes are kept; later fills go by the new labels. "
     "A factor that does not divide the number of bins leaves a smaller last bin. Edges that are not edges of the axis and factors that are not positive integers are refused, and the source is unchanged.",
     ["inputs", "configurations"], "all bin contents; all fixed axis kinds with all flag combinations; all subsets of the edges and all factors; any position among the other axes",
     "Tests rebin two or three axes; ranges that lose an overflow bin or shift by one at particular flags are not reached.",
     [J, A], [("rebin, rebinby", J), ("_rebinsplit, _rebinfactor", A)], "value-number abstract interpretation with a label oracle",
     "Each cell of the result must be the sum of exactly the symbols of the old bins within its label." + COMMON)

prop("C16", "Derived histograms keep weight, filter, definitions and attachments",
     "A histogram derived from another one (copy, cleared, projection, dropping, selection, rebinning, arithmetic, weight, filter, systematic, serialisation) has the weight, filter, definitions and attachments of its source, apart from what the operation is asked to replace. "
     "Filling it therefore has the same effect as filling a histogram constructed directly with these options and axes: weights stay applied, filtered entries stay out, and defined names stay defined. "
     "weight and filter replace the weight or the filter and nothing else, and systematic attaches its values.",
     ["configurations", "histories"], "all combinations of weight, filter, definitions and attachment with all deriving operations, alone and in pairs; all filled values",
     "Tests derive histograms and look at their content; a lost weight or filter shows only when the result is filled again.",
     [H, J], [("options in the constructor and every deriving method", H + ", " + J)], "dataflow analysis of options with value numbering",
     "The result is emptied and filled with symbolic data; its terms must be those of a histogram constructed directly." + COMMON)

prop("C17", "Arithmetic expressions mean what they say",
     "The value computed for an expression in an axis, profile or weight is, entry by entry, the one that Python's reading of its text gives for the fields: precedence, signs, powers, floor division, remainder, constants and functions. "
     "Algebraic simplification never changes it, apart from cancelling common factors and terms (including terms multiplied by zero), and expressions that are evaluated together with others having common parts get the same values as alone. "
     "A field takes precedence over a constant of the same name, and the integer, boolean or floating-point type of a field makes no difference as long as 64 bits hold the results.",
     ["inputs", "configurations"], "all field values; a family of some thousand expressions combining all operators and functions to depth 3 or 4; different iteration orders of the scheduler's sets",
     "Tests compare the printed form of some simplified expressions; a wrong simplification of another combination goes unnoticed, as does an intermediate array that is overwritten or dropped too early.",
     [E, I, C, F], [("Expr.parse, simplification", E), ("instructions, totree", I), ("calculate", C), ("_fill", F)], "value-number abstract interpretation (term equality)",
     "Fields are symbols; the term in the cell is compared as a real function with that of Python's own parse of the text. Term equality is decided at random points (polynomial identity testing), so two different terms that agree at all of them would be missed." + COMMON)

prop("C18", "Cuts and filters hold for exactly the entries that satisfy them",
     "A cut axis puts an entry into its pass bin, a filter lets it in and where selects its value exactly when Python's reading of the condition is true for its fields: comparisons and chains of them, equality, membership in sets, strings, boolean fields, and any nesting of and, or and not. "
     "Simplification (negated comparisons, De Morgan's laws, distribution of and over or, merging of equal terms) never changes which entries pass.",
     ["inputs", "configurations"], "all values of the fields, including infinities and NaN (for NaN, conditions without negated inequalities); a family of conditions combining all operators to depth 3 or 4",
     "Tests compare the printed form of some conditions. Wrong boundary inclusion after a negation, or a lost alternative after distribution, depends on the combination of operators.",
     [E, C, H, A], [("Expr.parse, negateexpr, distribution of logic", E), ("logic operations", C), ("cut", A), ("filter", H)], "abstract interpretation over field regions with a truth-table oracle",
     "Rows cover all regions that the condition's constants separate and all truth values of boolean fields; the cell must hold the symbols of exactly the rows for which the condition is true." + COMMON)

prop("C19", "Every recognised function computes what its name says",
     "Each function name that expressions accept, bare or as an attribute of math or numpy, and each alias of it, gives for every entry the value of that mathematical function, with its arguments in order. "
     "Functions with cases (rounding, sign, minimum and maximum, where, tests for NaN and infinity, remainder) choose the case by the entry's own value, and no function changes the arrays it is given.",
     ["inputs"], "all arguments for functions that map directly to an elementary operation; for functions with cases, constants on all sides of each case, infinities and NaN",
     "There are about eighty names in one table and tests use a handful of them; a name that is bound to a neighbouring function goes unnoticed.",
     [C, E], [("library", C), ("recognized, Expr.parse", E)], "value-number abstract interpretation",
     "The term in the cell must be the named elementary function of the argument symbols. erf, gamma and factorial are approximations and are compared with the true function at a set of points." + COMMON)

prop("C20", "Equality, hashing and compatibility follow parameters and content",
     "Axes, bin labels, histograms and books are equal exactly when their parameters, options and contents are, != is its negation, equal axes and labels have equal hashes, and equality is an equivalence that never raises for things of other types. "
     "compatible is true exactly for histograms with the same binnings in the same order, whatever their expressions, options and profiles, and for books with the same names and compatible members.",
     ["inputs", "configurations"], "all ordered pairs from a family in which each parameter of each axis kind, each option, each cell and each book member is varied alone",
     "Tests compare a few equal objects; a parameter that is left out of the comparison shows only with two objects that differ in nothing else.",
     [A, H, B], [("__eq__, __hash__, _only", A), ("Hist.__eq__, Hist.compatible", H), ("Book.__eq__, Book.compatible", B)], "pairwise dataflow analysis",
     "For each pair the analysed result must agree with the equality of the parameters the two were built from." + COMMON)

prop("C21", "A book is an ordered tree addressed by paths and wildcards",
     "A book holds its histograms and nested books under their names in order of insertion; a path with slashes reaches a nested member and assigning to one creates the books on the way; wildcards select exactly the matching names. "
     "keys, values, items, iteration, len, in, item access, their recursive forms and deletion all agree on the same tree after every history of changes. "
     "A view has exactly the matching histograms, as the same objects, and members that are neither histograms nor books are refused.",
     ["histories", "inputs"], "all sequences of a few assignments and deletions by name, path and wildcard from all base trees; all accessors",
     "Tests look at small books right after construction; wrong order, a stale recursive listing or a wildcard that reaches one level too far needs a particular history.",
     [B], [("Book accessors and mutators", B), ("views", B)], "heap analysis (identity and order) against a reference tree",
     "The reference tree is built independently by the checker; identities of the members must coincide." + COMMON)

prop("C22", "Filling a book is filling each of its histograms",
     "Filling a book gives every histogram in it, at any depth, the content it would have if it were filled alone with the same data, whatever the other members are and however their expressions overlap. "
     "This holds for every history of fills of the book, of nested books, views and members alone, and of members that are added, replaced or removed in between; a removed member is no longer filled.",
     ["inputs", "histories", "configurations"], "all weights and profiled values; combinations of histograms with overlapping expressions; histories of fills and membership changes; different iteration orders of the scheduler's sets",
     "The book shares one computation of all members' expressions, cached and rebuilt when members change; an intermediate result freed too early, delivered to the wrong member or a cache that is not rebuilt needs particular combinations.",
     [B, F, I, H], [("Book._fill, _goals, cache", B), ("Fillable.fields, _fill", F), ("instructions", I)], "differential value-number analysis with a twin outside of the book",
     "Each member's terms must equal those of a twin that was filled alone." + COMMON)

prop("C23", "A fill that is rejected changes nothing",
     "When fill raises an exception (a field is missing, fields have different lengths, an expression cannot be computed for the values given), every histogram it would have filled is as it was before: same content, same equality, and unfilled if it was unfilled. "
     "This holds for histograms and for all members of books, after any history of fills, and later fills have the effect they would have had without the rejected one.",
     ["inputs", "histories", "faults"], "each required field missing or of another length, wrong numbers of arguments, values that cannot be computed with; histograms and books with all earlier histories of a few fills",
     "Tests check that some exception is raised; they do not look at what half of the work was already done when it was.",
     [H, F, B], [("Hist.fill, _postfill", H), ("Fillable._fill", F), ("Book.fill", B)], "exceptional-path dataflow analysis",
     "The picture of each histogram on every exceptional path must be the one before the fill." + COMMON)

prop("C24", "Invalid specifications are refused and valid ones accepted",
     "A specification that does not describe a histogram is refused with an exception when it is given, never silently reinterpreted: axis parameters of the wrong type or order, empty or repeated edges, unknown options, expressions with constructs that have no meaning, members of books that are not histograms, members of a systematics book that are not compatible with each other or have no systematic, malformed JSON. "
     "Every valid specification is accepted, and gives axes with the specified number of bins.",
     ["inputs", "configurations"], "all combinations of valid, borderline and invalid parameters of each axis kind from fixed lists, directly and through JSON; each construct of Python's expression grammar",
     "Tests try a few invalid arguments; a check that is lost or a construct that is silently ignored goes unnoticed.",
     [A, H, E, B], [("constructors", A), ("Hist.__init__, fromjson", H), ("Expr.parse", E), ("Book.__init__", B)], "exceptional-path analysis of constructors",
     "Each specification must reach an exception exactly if the reference predicate calls it invalid. Infinite and NaN parameters are not claimed." + COMMON)

prop("C25", "A defined name means its definition",
     "A histogram whose axes, profiles, weight or filter use names given in defs behaves as one in which every such name is replaced by its definition in parentheses: same content for all data, same fields required. "
     "This holds for definitions given as text, number or expression, for every position and operator around the name, and for names that are also names of fields.",
     ["inputs", "configurations"], "all field values; all combinations of definitions, expressions and positions from fixed families",
     "Tests use one definition in one axis; precedence, negation and repeated use need combinations.",
     [E, H, A], [("defs in Expr.parse", E), ("Hist.__init__", H)], "differential value-number analysis",
     "Terms in every cell are compared with those of the histogram with substituted text." + COMMON)

prop("C26", "Grouping keeps the bins of each source under its own name",
     "Hist.group of several compatible histograms has a new grouping axis under whose keys are exactly the bins of each source; togroup adds to the bins of names that exist and creates the others; Book.group does so for every histogram path of its books. "
     "Selecting a name gives back that source's bins, removing the new axis gives the sum, and the sources do not change. Histograms that are not compatible are refused.",
     ["inputs", "configurations"], "all bin contents; all axis combinations; any number of sources up to three, repeated and unfilled ones included",
     "Tests group one pair; a bin that is lost, shared or added under the wrong name depends on the axes.",
     [H, B], [("Hist.group, togroup", H), ("Book.group", B)], "value-number abstract interpretation (symbolic cells)",
     "Every cell of each source is a distinct symbol." + COMMON)

prop("C27", "fraction reports the share of entries that pass each cut",
     "Each row of fraction holds, for the bin with its label, the number of entries over all outcomes of the requested cuts and for each cut the share of the entries that pass it, with an error of the requested number of standard deviations or confidence level. "
     "Cuts that are not requested remain axes, the order of rows follows the axes, and empty bins have no spurious content.",
     ["inputs", "configurations"], "all positive bin contents and empty bins; all axis combinations with up to three cuts; each subset of cuts and each option",
     "Tests compare one or two fraction tables; which axis is summed and which bins are counted depends on the position of the cut among the axes.",
     [H, J], [("fraction", J)], "value-number abstract interpretation",
     "Each entry of the table must be the term given by the reference sums. Only the default error formula is claimed." + COMMON)

prop("C28", "fields are exactly the names that a fill needs",
     "The published fields of a histogram or book are the free names of all its expressions (apart from names that cancel when an expression is simplified, as in y - y), each once and in sorted order. A fill that provides them is accepted, a fill that lacks any is refused, and additional fields have no effect. "
     "After members are added to or removed from a book, its fields are those of the members it has.",
     ["configurations", "histories"], "a family of histograms and expressions in all positions; books after every change of membership",
     "Tests look at the fields of a few histograms; a field that is optimised away or kept after its last use is removed needs particular combinations.",
     [F, H, B, E], [("Fillable.fields, _goals", F), ("cache of fields", H + ", " + B)], "need analysis of free names by abstract interpretation",
     "The published fields are compared with the free names of Python's own parse of the expressions." + COMMON)

prop("C29", "Plots show every bin's value at its place",
     "The Vega-Lite document of a plot has, for each finite bin of the horizontal axis (each bin, for axes with labels) and each bin of the overlaid, stacked or juxtaposed axes, one data point at that bin's position with that bin's value and error from the table, in the channels the chain asks for. "
     "All other axes are summed over. In combinations (overlay, beside, below, grid, nested) every plot draws exactly its own data, in the requested arrangement. "
     "Plots that have no meaning are refused, and plotting does not change the histogram.",
     ["inputs", "configurations"], "all bin contents; all kinds of plot, axis kinds and orders, chains of up to three channels, and combinations of up to three plots",
     "Plots have no unit tests at all, since they are looked at; a shifted position or a value read from a neighbouring column needs checking of every row.",
     [V, H, J, A], [("Plotable1d._data, _vegalite", V), ("Plotable2d", V), ("Combination and subclasses", V)], "value-number abstract interpretation with a reader of Vega-Lite documents",
     "The document is read the way a plotting program does: rows, filters, calculations, encoding fields; names of fields do not matter." + COMMON)

prop("C30", "Axes, bins and groups are found under their names",
     "The axes of a histogram are listed as grouping axes, then binned axes, then profiles, each in the order given. An axis is found by its position, by any way of writing its expression, or by class, expression and parameters, and what is found is the first such axis; names of no axis are refused. Methods that work on one kind of axis (rebinning, profiles of tables, cuts of fractions, dropping) find the axis of that kind even if axes of other kinds have the same expression. "
     "Bins are found by group keys and bin positions and hold that bin's statistics, groupkeys are exactly the groups an axis has in any branch, and the shape counts the bins of each axis.",
     ["inputs", "configurations"], "all bin contents; a family of histograms with repeated expressions, all axis kinds and orders, and branches with different groups",
     "Tests look up one or two axes of simple histograms; repeated expressions, reordered terms and unequal branches are combinations they do not reach.",
     [J, H, E], [("AxisTuple", J), ("Hist.__getitem__, groupkeys, shape", H)], "value-number abstract interpretation",
     "What is found is compared with the axis, symbols or keys that the histogram's own JSON lists under that name." + COMMON)

prop("C31", "Exported tables hold each bin's statistics under its label",
     "The pandas export of a histogram has one row for each bin, in axis order with groups in increasing order and NaN last, whose index is the label of the bin on every axis and whose columns are the statistics of that same bin (or, for cuts, its fractions). "
     "The ROOT export of one binned axis has that axis's bin edges, and each of its bins, with underflow and overflow, holds the content and error of the bin with these edges. "
     "Exports do not change the histogram, and what is not a table is refused.",
     ["inputs", "configurations"], "all positive bin contents and empty bins; all axis combinations, profiles, cuts and table options",
     "Neither library is needed to install or test histbook, so that the exports have hardly any tests; a label paired with another bin's row needs asymmetric contents.",
     [T, J], [("Exportable.pandas, root", T), ("table, fraction", J)], "value-number abstract interpretation with recording stand-ins for pandas and ROOT",
     "The stand-ins record the index, columns and values they are given; each row must pair one bin's label with that bin's terms." + COMMON)

NA = []


def notapplicable(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append(dict(id=id, reason=reason))


notapplicable("C32", "Filling from a Spark DataFrame is filling from arrays",
     "Filling a histogram or book from a PySpark DataFrame gives the same content as filling it from arrays with the same columns.",
     ["inputs"], "all column values", "There are no tests of Spark fills.", ["histbook/calc/spark.py"], [("tocolumns, fillspark", "histbook/calc/spark.py")],
     "The values are computed inside Spark's engine from column objects (null propagation, nanvl, greatest/least and grouping by structs); no source of that engine is installed here, so that a static verdict would rest entirely on a model of Spark that nothing could confirm. Reading the code shows defects (see DESIGN.md).")
