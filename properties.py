prop("C01", "Disjoint-set partition equals the equivalence generated by its merges",
     "After any sequence of insertions, merges, resets and lookups, two elements have the same representative exactly when the performed merges connect them, the reported numbers of elements and of sets are exact, and a lookup (with or without path compression) never changes this relation. The list of representatives contains one member per set in increasing order and the two labelings number the sets consistently with it, starting at zero.",
     IH, "all element counts, all histories of insert / merge / find / reset, all elements queried",
     "No test exercises this class directly; multicut and clustering code uses it with a few fixed small inputs, so cycles, lost unions or wrong set counts that need a particular merge order stay unseen.",
     ["datastructures/partition.hxx"], [("Partition::find / merge / insert / reset", "datastructures/partition.hxx:120-200"), ("representatives / representativeLabeling / elementLabeling", "datastructures/partition.hxx:200-265")])

prop("C02", "Every built-in factor function returns the value its definition prescribes",
     "For every valid label vector, each predefined function (Potts and its n-ary and grouped forms, absolute and squared differences with and without truncation, constants, single-site, explicit, sparse, field-of-experts, label-cost, and the views that fix, scale, convert or shift another function) evaluates to the value its mathematical definition gives for its current parameters. Evaluation reads only labels of its own arguments, gives the same value for every kind of label sequence, and does not modify the function.",
     IH, "all parameter values, all shapes, all label vectors inside the shape, after any sequence of parameter changes",
     "The tests evaluate each function at a few hand-picked shapes and parameters; values that are wrong only for particular label combinations, orders or unequal label counts are not sampled.",
     ["functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/absolute_difference.hxx", "functions/squared_difference.hxx", "functions/truncated_absolute_difference.hxx", "functions/truncated_squared_difference.hxx", "functions/constant.hxx", "functions/singlesitefunction.hxx", "functions/explicit_function.hxx", "functions/sparsemarray.hxx", "functions/view_fix_variables_function.hxx", "functions/scaled_view.hxx", "functions/view.hxx", "functions/view_convert_function.hxx", "functions/accumulated_view.hxx", "functions/modelviewfunction.hxx", "functions/fieldofexperts.hxx", "functions/soft_constraint_functions/label_cost_function.hxx", "functions/soft_constraint_functions/sum_constraint_function.hxx"],
     [("operator() of each function class", "functions/*.hxx")])

prop("C03", "Function shape metadata is consistent and faithful",
     "For every predefined function the reported dimension and per-variable label counts are exactly those it was built with (or that its construction implies), and the reported number of entries equals the product of the label counts. This holds after construction, copying and assignment, for every number of variables the function supports.",
     IH, "all shapes and dimensions the constructors accept, incl. products above 2^31",
     "Tests check shapes of a few small instances (two or three variables, at most a handful of labels); large products and unequal label counts are not reached.",
     ["functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/constant.hxx", "functions/absolute_difference.hxx", "functions/squared_difference.hxx", "functions/view_fix_variables_function.hxx"],
     [("dimension / shape / size of each function class", "functions/*.hxx")])

prop("C04", "Function serialization round-trips and accounts for exactly its buffers",
     "Serializing any supported function and deserializing the result yields a function with the same shape, parameters and value at every label vector. Serialization writes, and deserialization reads, exactly the announced number of index and value entries, in the documented order, touching nothing outside those ranges.",
     ["inputs"], "all function instances of all serializable classes",
     "Round trips are tested for one instance per class; off-by-one buffer counts, order swaps of equal-looking entries, or losses for other shapes go unnoticed.",
     ["functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/absolute_difference.hxx", "functions/squared_difference.hxx", "functions/truncated_absolute_difference.hxx", "functions/truncated_squared_difference.hxx", "functions/constant.hxx", "functions/explicit_function.hxx", "functions/sparsemarray.hxx"],
     [("FunctionSerialization<...>::serialize / deserialize / indexSequenceSize / valueSequenceSize", "functions/*.hxx")])

prop("C05", "Function property queries agree with exhaustive evaluation",
     "For every function, the minimum, maximum, minimum-and-maximum, sum and product it reports, directly or through accumulate, equal what evaluating it at all label vectors gives. A function of two or more variables is reported to be Potts or generalized Potts exactly if its values depend only on whether the labels are equal, and one of two variables is reported to be submodular, an absolute or squared difference or a truncated one exactly if its values at all pairs of labels say so; no query evaluates the function outside its shape. Specialised answers of individual classes agree with the generic computation.",
     ["inputs"], "all parameters and shapes of all function classes that answer these queries",
     "Tests compare the queries with enumeration for a few parameter sets only (e.g. equal values, negative couplings, one-label variables, truncation beyond the range are absent).",
     ["functions/function_properties_base.hxx", "functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/constant.hxx", "functions/absolute_difference.hxx", "functions/squared_difference.hxx", "functions/truncated_absolute_difference.hxx", "functions/truncated_squared_difference.hxx"],
     [("FunctionBase queries and per-class overrides", "functions/function_properties_base.hxx:60-560")])

prop("C06", "Accumulation and combination operators obey their algebra",
     "Each combination and accumulation operation (sum, product, minimum, maximum, conjunction, disjunction, integration, weighted and log-sum forms) computes its defining binary operation in both its two-operand and its in-place form, starts from its true neutral element, undoes it with its inverse where it has one, and orders values consistently (better-than, infinities). Accumulating a sequence of values, with or without the labels that attain them, gives the fold of the operation and, for minimum and maximum, labels that attain it.",
     ["inputs"], "all operand values; all finite sequences of values and labels",
     "The operator test tries a few constants per operator, not every form of each operator, and no test covers in-place forms, neutrality or inversion for all values.",
     ["operations/adder.hxx", "operations/multiplier.hxx", "operations/minimizer.hxx", "operations/maximizer.hxx", "operations/and.hxx", "operations/or.hxx", "operations/integrator.hxx", "operations/logsumexp.hxx", "operations/normalize.hxx", "operations/weightedoperations.hxx", "utilities/accumulation.hxx"],
     [("op / iop / neutral / ineutral / bop / ibop / hop / ihop", "operations/*.hxx"), ("Accumulation", "utilities/accumulation.hxx")])

prop("C07", "Label spaces report exactly the variables and label counts they were built with",
     "For every kind of label space, after any sequence of dense assignments and variable additions, the number of variables equals the number declared and each variable's number of labels is the one declared for it. Invalid declarations are rejected without changing the space.",
     IH, "all numbers of variables and label counts, all histories of construction, assignment and addition",
     "Tests construct each space once with a few variables.",
     ["graphicalmodel/space/discretespace.hxx", "graphicalmodel/space/simplediscretespace.hxx", "graphicalmodel/space/grid_space.hxx", "graphicalmodel/space/viewspace.hxx", "graphicalmodel/space/vector_view_space.hxx", "graphicalmodel/space/static_simplediscretespace.hxx", "graphicalmodel/space/space_base.hxx"],
     [("numberOfVariables / numberOfLabels / addVariable / assignDense", "graphicalmodel/space/*.hxx")])

prop("C08", "A graphical model stores and evaluates exactly what was added to it",
     "Every factor added to a model keeps its variable indices and function, is listed at exactly the variables it contains, and the reported counts and orders follow the additions. The value of the model at any labeling is the model's operation folded over the factors' values at the labels of their variables, so invalid additions (unsorted or out-of-range variables, shapes that do not match the label space) are rejected without being stored.",
     IH, "all sequences of variable / function / factor additions, all labelings",
     "Tests build a few fixed models and evaluate a few labelings; the relation between additions, adjacency and evaluation for arbitrary models is not checked.",
     ["graphicalmodel/graphicalmodel.hxx", "graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_function_wrapper.hxx", "datastructures/randomaccessset.hxx"],
     [("addFunction / addFactor / finalize / evaluate / variableOfFactor / numberOfFactors", "graphicalmodel/graphicalmodel.hxx:240-965"), ("Factor", "graphicalmodel/graphicalmodel_factor.hxx")],
     "evaluation of a model goes through meta-programmed dispatch over type lists of per-function containers (Tokenizer / FunctionTypeList loops over recursively nested class templates, boost-like pointer tables) combined with per-variable RandomAccessSets of factors; the engine executes the dispatch, but the relation between additions, adjacency and the folded value needs an invariant over nested heap structures (a vector of sets of factors, factor -> function index -> container) which neither the candidate generator nor z3/cvc5 discharged in reach. The building blocks it relies on (functions C02, spaces C07, sets C10, operators C06) are decided separately")

prop("C09", "Label enumeration visits every label vector exactly once in the documented order",
     "Walking through a shape visits each label vector within the shape exactly once, first coordinate fastest, for any number of coordinates and any label counts, starting from the all-zero vector. The walker in switched order does so in the order of the coordinates it is given; walkers that hold some coordinates fixed visit precisely the label vectors that agree with the fixed labels; walkers over the variables of several functions at once report, beside the label vector, exactly the label vectors of the functions' own variables.",
     ["inputs", "histories"], "all shapes (including one-label coordinates), all fixed subsets, all step counts",
     "Tests use a few small rectangular shapes.",
     ["utilities/indexing.hxx", "utilities/accessor_iterator.hxx", "utilities/shape_accessor.hxx", "utilities/subsequence_iterator.hxx", "utilities/vector_view.hxx"],
     [("ShapeWalker, SubShapeWalker, ShapeWalkerSwitchedOrder, TripleShapeWalker, DoubleShapeWalker", "utilities/indexing.hxx")])

prop("C10", "The random-access set behaves as a sorted mathematical set",
     "After any history of insertions, erasures, assignments, swaps and clears, the container holds exactly the inserted and not erased keys, each once, in increasing order of its comparison. Lookups, counts, bounds, ranges and positional access answer according to that ordered set, and insertion reports truthfully whether the key was new and where it is.",
     IH, "all keys, all histories of set operations, custom comparisons",
     "Tests insert a few keys in one or two orders.",
     ["datastructures/randomaccessset.hxx"], [("insert / erase / find / lower_bound / upper_bound / equal_range", "datastructures/randomaccessset.hxx")])

prop("C11", "The small-buffer and growable sequences behave as plain value sequences",
     "After any history of construction, copy, assignment, growth, shrinking and clearing, each sequence has exactly the logical length and elements that the history prescribes, regardless of whether the elements live in the inline or the heap buffer. Copies are independent of their source, no operation reads or writes outside the owned storage, and all owned storage is released exactly once.",
     IH, "all lengths (crossing the inline limit), all histories of operations and copies",
     "The test covers one small and one large sequence through a couple of operations; transitions between inline and heap storage through copies and assignments are not sampled.",
     ["datastructures/fast_sequence.hxx", "datastructures/buffer_vector.hxx"], [("FastSequence", "datastructures/fast_sequence.hxx"), ("BufferVector", "datastructures/buffer_vector.hxx")])

prop("C12", "The changeable priority queue always yields the extreme live entry",
     "After any history of insertions, priority changes, removals and pops, the queue reports exactly the live entries with their current priorities, and its top is an entry whose priority is extreme under the queue's order. A pop or removal removes only that entry, and the first-in-first-out queue returns entries in insertion order.",
     IH, "all capacities, all priorities, all histories of push / change / delete / pop",
     "No test exercises the queue; it is reached only through hierarchical clustering and other solvers.",
     ["utilities/queues.hxx"], [("ChangeablePriorityQueue push / pop / deleteItem / bubbleUp / bubbleDown", "utilities/queues.hxx")])

prop("C13", "Three-valued logic follows its truth tables and comparisons",
     "Construction, assignment, conversion to Boolean, negation, conjunctive update, equality and inequality of three-valued truth values follow their truth tables for every combination of three-valued, Boolean and integer operands. Inequality is always the negation of equality.",
     ["inputs"], "all pairs of three-valued / Boolean / integer operands of each operator",
     "The test asserts a subset of operand combinations, not every operator against every operand.",
     ["utilities/tribool.hxx"], [("Tribool operators", "utilities/tribool.hxx")])

prop("C14", "Incremental move evaluation equals evaluating the whole model",
     "After any sequence of local moves, the tracked labeling is the one the moves prescribe and the tracked value equals the value of the whole model at that labeling; tentative moves report the value the model would have and leave the labeling unchanged. Optimal-move and greedy local searches built on it never return a worse value than they started with and return the value of the labeling they return.",
     IH, "all models, all labelings, all sequences of moves of any number of variables",
     "Tests run a few moves on fixed models.",
     ["inference/movemaker.hxx", "inference/icm.hxx", "inference/lazyflipper.hxx"], [("Movemaker move / valueAfterMove / moveOptimally", "inference/movemaker.hxx")],
     "Movemaker's value tracking is stated over a whole graphical model (C08's nested structure) and sums over the factors touched by a move; the invariant 'tracked value equals the fold over all factors' needs re-association of an unbounded sum over an arbitrary incidence structure, which no contract within the verifier's reach expresses")

prop("C15", "Exact solvers return an optimum with its true value",
     "Exhaustive search, best-first search and dynamic programming on trees return a labeling whose value under the model is optimal over all labelings for the requested accumulation, and the reported value is that value. Starting labelings and previously stored state never influence the result.",
     ["inputs"], "all models in the solver's domain",
     "Solver tests run on a handful of random models per solver.",
     ["inference/bruteforce.hxx", "inference/astar.hxx", "inference/dynamicprogramming.hxx"], [("Bruteforce::infer", "inference/bruteforce.hxx")],
     "optimality of the returned labeling quantifies over all labelings of an arbitrary model through the solver's search loop (and through GraphicalModel evaluation, see C08); the enumeration (C09) and best-value accumulation (C06) it is made of are decided separately, the composition is not within reach")

prop("C16", "Factor algebra computes pointwise operations and exact marginalisation",
     "Combining two factors by an operation yields a factor over the sorted union of their variables whose value at each labeling is the operation applied to the operands' values there; in-place, unary and scalar forms agree. Accumulating over all or some variables yields, at each remaining labeling, the accumulation over exactly the removed variables' labels, with labels that attain it.",
     ["inputs"], "all operand factors with arbitrary overlapping or disjoint variables and shapes, all subsets accumulated",
     "Tests combine a few small factors.",
     ["graphicalmodel/graphicalmodel_factor_operator.hxx", "graphicalmodel/graphicalmodel_factor_accumulator.hxx", "functions/operations/operator.hxx", "functions/operations/accumulator.hxx"],
     [("operateBinary / operateUnary / accumulate", "functions/operations/*.hxx")],
     "operateBinary/accumulate run on functions whose values are stored in resized multi-dimensional arrays of a dimension only known at run time, addressed through nested strides; the pointwise contract needs nonlinear (product-of-shape) index arithmetic under an unbounded nested walk, which the solvers did not discharge even for element-wise operations on strided views (see C19)")

prop("C17", "Fixing variables and splitting a model preserves values of all consistent labelings",
     "Fixing variables of a model yields a smaller model whose value at every labeling of the remaining variables equals the original model's value at the completed labeling, and mapping between original and reduced labelings is inverse on the free variables. Splitting into connected parts loses and duplicates no factor.",
     IH, "all models, all subsets fixed, all histories of fixing and releasing variables",
     "Tests manipulate one model.",
     ["graphicalmodel/graphicalmodel_manipulator.hxx", "functions/view_fix_variables_function.hxx"], [("GraphicalModelManipulator", "graphicalmodel/graphicalmodel_manipulator.hxx")],
     "the reduced model is built by GraphicalModelManipulator through the model's type-list dispatch and nested incidence sets (see C08); the single function that carries the value argument, ViewFixVariablesFunction, is decided in C02 and C03")

prop("C18", "Constraint objects decide exactly the labelings they describe",
     "A logical indicator over (variable, label) conditions holds for exactly the labelings its operator prescribes, also after conditions are added, and indicators are compared by equality and order as documented. A linear constraint over such indicators reports the true amount by which its sum of coefficients violates the bound, zero if satisfied. The label-order function takes the valid value exactly for ordered labels; its queries for violated constraints, and the relaxed ones of the label-limit function, return exactly the constraints violated beyond the tolerance with their amount.",
     ["inputs"], "all indicators, coefficients, operators, bounds, tolerances and labelings",
     "Tests evaluate a few fixed constraints.",
     ["datastructures/indicator_variable.hxx", "datastructures/linear_constraint.hxx", "functions/constraint_functions/label_order_function.hxx", "functions/constraint_functions/num_labels_limitation_function.hxx"],
     [("IndicatorVariable::operator() / add / comparisons", "datastructures/indicator_variable.hxx"), ("LinearConstraint::operator()", "datastructures/linear_constraint.hxx"), ("LabelOrderFunction::operator() / challenge / challengeRelaxed", "functions/constraint_functions/label_order_function.hxx")])

prop("C19", "Multi-dimensional arrays address every element exactly once",
     "For arrays and views of any shape and coordinate order, the map from coordinates to elements is one-to-one within the shape, linear indices and coordinates convert into each other exactly, and shape, size and strides agree. Sub-views, views with a bound coordinate, permutations, transpositions, shifts, squeezed views, reshapes and iteration address the elements their definition prescribes; filling, copying, assignment and element-wise arithmetic give every element its value and leave the source as it was.",
     ["inputs", "histories"], "all shapes of up to three dimensions (some operations four), all offsets of sub-views, both coordinate orders",
     "The multi-dimensional array is used by every explicit function but its own tests are not part of the suite.",
     ["datastructures/marray/marray.hxx"], [("View / Marray indexing", "datastructures/marray/marray.hxx")])

prop("C20", "Decompositions cover the model and reparametrise it without changing values",
     "A decomposition into sub-models lists for each variable and factor exactly the sub-models containing them, is reported valid only if every factor is covered and each sub-model's structure matches, and shared factors are weighted so that the sub-models sum to the original model. Each predefined decomposer returns a valid decomposition of its documented form.",
     ["inputs"], "all models, all decompositions",
     "Tests decompose a few grids.",
     ["graphicalmodel/decomposition/graphicalmodeldecomposition.hxx", "graphicalmodel/decomposition/graphicalmodeldecomposer.hxx"], [("GraphicalModelDecomposition / Decomposer", "graphicalmodel/decomposition/*.hxx")],
     "decompositions are stated over a whole model (see C08) and vectors of lists of sub-variables/sub-factors per node; coverage needs reachability-style invariants over nested std::list structures for which the verifier has no heap model")

prop("C21", "Index views, accessor iterators and subsequences are faithful random-access ranges",
     "Iterators over accessor objects, over chosen positions of a sequence, and over views of stored ranges satisfy the random-access iterator laws (arithmetic, distance, ordering and dereference agree) and refer to exactly the elements the underlying sequence has at those positions. Searching an ordered sequence reports the first position of the value exactly if it is there, and the order test answers true exactly for ordered sequences, empty ones included.",
     IH, "all underlying sequences (below 2^40 entries), positions and iterator arithmetic",
     "Tests walk a few short sequences.",
     ["utilities/accessor_iterator.hxx", "utilities/subsequence_iterator.hxx", "utilities/vector_view.hxx", "utilities/sorting.hxx"], [("AccessorIterator / SubsequenceIterator / VectorView / findInSortedSequence / isSorted", "utilities/*.hxx")])

prop("C22", "Learnable functions are linear in their weights with the reported gradient",
     "For every weight vector, a learnable function's value equals the sum over its weights of weight times the reported derivative at that labeling, and its weight count and identifiers are those it was built with. Changing a weight changes only the values of the functions that use it.",
     IH, "all weight vectors, label vectors, feature values",
     "Tests evaluate a few instances.",
     ["functions/learnable/lpotts.hxx", "functions/learnable/lunary.hxx", "functions/learnable/lweightedsum_of_functions.hxx", "graphicalmodel/weights.hxx"], [("operator() / weightGradient", "functions/learnable/*.hxx")])

prop("N01", "Approximate message passing and dual bounds are valid bounds",
     "Every reported lower bound of a dual or message-passing solver is at most the optimal value, and the returned labeling's value is at least it.",
     ["inputs"], "all models", "Solver tests use a few random models.", ["inference/trws", "inference/messagepassing"], [("bound()", "inference/*")],
     "whole-solver numerical invariants over floating-point iterations; no contract within reach of the verifier expresses the dual bound of the iterative solvers")
prop("N02", "External-solver and file interfaces preserve the model",
     "Models written to and read from files, or handed to external solvers, are the same model.",
     ["inputs", "fault_sequences"], "all models", "One round trip is tested.", ["graphicalmodel/graphicalmodel_hdf5.hxx"], [("save/load", "graphicalmodel/graphicalmodel_hdf5.hxx")],
     "the deciding behaviour lies in HDF5 / external C libraries that are outside the verifier's reach (only trusted stubs would be proved); the in-memory half (function serialization) is decided as C04")
