def T(mod, how='scripts covering its state graph, and random ones, are run on real programs'):
    return f'TLA+ (TLC): {mod}.tla checked with TLC; {how}; what was observed is judged by TLC against {mod}.tla'

def N(extra):
    return extra + ' Trusts TLC, g++-13 and the recording harness. Bounded: other programs and longer histories are not covered.'

CASES = 'cases enumerated by TLC, and random larger ones, are compiled and run against the real headers'

prop('L09', 'A lazy object is no larger than its stateful parts and its cached results',
     'A lazy object stores the functions and values it was given that have state, one optional result per lazy function and per plain function (a bool for a void '
     'function), recursively for lazy dependencies, and nothing else: its size is at most the sum of the sizes of those parts, each rounded up to the strictest '
     'alignment among them. Stateless functions and values of empty classes add nothing.',
     ['programs'], 'All dependency trees and kinds of functions, results and values.',
     'tests/lazy.test.cpp (memory_footprint) looks at a few objects and is not among the stable tests.', LAZY,
     mech(('storage of functions, dependencies and cache', 'lazy.h: lazy_core, ensure_lazy'), ('compression', 'compressed_tuple.h')),
     ['sizeof'], T('Layout', CASES),
     N('Sizes of all small trees (thorough; a sample in the quick check) and random deeper ones.'))

prop('T10', 'Compressed tuples hold, give access to and carry along exactly their elements',
     'get<i> of a compressed tuple gives element i as it was passed in or last assigned, as the stored object itself with the constness and value category of the '
     'tuple expression (reference elements refer to the user\'s object, elements of empty classes are equivalent values), without copying. Tuples can be made from any mix of values, references, '
     'const, move-only and empty types, also by deduction (values) and by default; copies and moved-to tuples have the same elements, and afterwards neither '
     'affects the other except through reference elements; rvalues and whole tuples are moved, not copied, where the element types permit it.',
     ['programs', 'histories'], 'All element types and sequences of construction, copying, moving, assignment, access and writing.',
     'tests/compressed_tuple.test.cpp samples a few tuples of int, string and empty lambdas; the statement is about every combination of element types and every history.',
     ['src/pigro/compressed_tuple.h', 'src/pigro/empty_object.h', 'src/pigro/fwd_capture.h', 'src/pigro/forward_like.h', 'src/pigro/pack_algorithms.h'],
     mech(('element access', 'compressed_tuple.h: stateful_element, stateless_element, get'), ('construction', 'compressed_tuple.h: make_compressed_tuple_base')),
     ['values, addresses and value categories of elements', 'copies of elements'], T('Tuple'),
     N('State graphs of 17 small tuples (two objects, up to three values) are covered; 14 large and seed-drawn tuples get random histories.'))

prop('T11', 'Stateless parts take no space in tuples, overloads and bindings',
     'Elements of empty classes do not contribute to the size of a compressed tuple, stateless functions not to that of an overload set of functions, a recursive function, or a '
     'void adapter, and bound or uncaptured values and callables without state not to the size of a binding: each is no larger than a struct of its parts that '
     'have state, and is itself an empty class if no part has state.',
     ['programs'], 'All numbers, orders and kinds of parts.',
     'The tests look at a few sizes; repeated empty types, alignment and order matter in general.',
     ['src/pigro/compressed_tuple.h', 'src/pigro/overload.h', 'src/pigro/recursive.h', 'src/pigro/bind_tuple.h', 'src/pigro/uncapture.h', 'src/pigro/regular_void.h'],
     mech(('empty bases with unique types', 'compressed_tuple.h: stateless_element; uncapture.h: Uncaptured'), ('empty base optimisation', 'overload.h, recursive.h, bind_tuple.h')),
     ['sizeof, std::is_empty'], T('Layout', CASES), N('All constructs of up to three parts (four when thorough) of five kinds, and random larger ones.'))

prop('B12', 'Bound and call arguments reach the function in order, and its result comes back',
     'Calling tuple >> f calls f with the elements of the tuple followed by the arguments of the call, calling tuple << f or bind_back(f, xs...) with the arguments of '
     'the call followed by the elements or xs: each once, with the values they have at that moment, and the call returns what f returns. This holds for compressed '
     'tuples, std::tuple, pairs and arrays of any elements (none, empty classes and nested tuples included) and any number of arguments.',
     ['programs', 'histories', 'inputs'], 'All tuples, callables and arguments, and sequences of calls, copies and changes.',
     'tests/bind_tuple.test.cpp tries a few bindings, and does not compile with the toolchain of the stable tests.',
     ['src/pigro/bind_tuple.h', 'src/pigro/apply.h', 'src/pigro/compressed_tuple.h', 'src/pigro/fwd_capture.h'],
     mech(('argument order', 'bind_tuple.h: bind_front, bind_back, front_tuple_invoker, back_tuple_invoker')),
     ['arguments f is called with, result'], T('Bind'),
     N('State graphs of 24 small bindings are covered (sampled where large); 26 larger and some seed-drawn ones get random histories.'))

prop('B13', 'Bindings own what they were given as rvalues, refer to lvalues, and copy nothing',
     'A binding holds a tuple, callable or bound value that was passed as an rvalue, and refers to a tuple or callable that was passed as an lvalue. Every call works '
     'on these objects themselves: f receives the stored elements, and lvalue arguments of the call, not copies, so what f writes to them, and '
     'f\'s own state, is there in the next call; copies of a binding are independent of it. Making, moving and calling a binding copies nothing.',
     ['programs', 'histories'], 'All tuples, callables and arguments, and sequences of making, calling, copying, moving and changes.',
     'tests/bind_tuple.test.cpp tries a few bindings, and does not compile with the toolchain of the stable tests.',
     ['src/pigro/bind_tuple.h', 'src/pigro/apply.h', 'src/pigro/compressed_tuple.h', 'src/pigro/fwd_capture.h'],
     mech(('capture by forwarding', 'fwd_capture.h: fwd_capture, access'), ('invocation in place', 'bind_tuple.h: front_tuple_invoker, back_tuple_invoker')),
     ['addresses of arguments, copies, state of the callable'], T('Bind'),
     N('State graphs of 30 small bindings are covered (sampled where large); 26 larger and some seed-drawn ones get random histories.'))

prop('O14', 'An overload set calls the member that C++ overload resolution selects',
     'A call of overload{ f1, ..., fn } invokes exactly the fi whose call operator C++ overload resolution selects among all of them for the arguments and the '
     'constness of the set, keeps the state of each member separately, and is ill-formed, detectably so, if there is none or no best one. Copies of the set have '
     'copies of the states.',
     ['programs', 'histories', 'inputs'], 'All sets of member signatures and sequences of calls.',
     'tests/overload.test.cpp tries single calls on a few sets.',
     ['src/pigro/overload.h'], mech(('inherited call operators', 'overload.h: overload')),
     ['which member ran, and its state; std::is_invocable'], T('Overload', CASES + ' through scripts of calls'),
     N('Sets of one or two of 23 signatures (all when thorough), and random sets of up to eight, called with nine argument types.'))

prop('A16', 'transform and any visit the elements of a tuple in order and combine them right',
     'transform calls the projection exactly once for each element of a tuple, pair or array, in order, with the element itself, and returns a std::tuple of the decayed results in the same positions. '
     'any is true exactly if the predicate (by default the element itself) holds for some element; it evaluates the elements in order and only up to '
     'the first that decides.',
     ['programs', 'inputs'], 'All tuples, values, projections and predicates.',
     'tests/tuple_algorithms.test.cpp evaluates a few expressions on tuples of int.',
     ['src/pigro/tuple_algorithms.h'], mech(('element-wise application', 'tuple_algorithms.h: transform, any')),
     ['calls of the projection or predicate with their arguments, result'], T('Algorithms', 'all value vectors enumerated by TLC are run on real programs'),
     N('All vectors of up to eight values; fixed and seed-drawn tuple types; six projections, two thresholds.'))

prop('A17', 'apply and to_tuple pass on every element, in order, as what it is',
     'apply(f, t) calls f once with get<0>(t), get<1>(t), ... for the value category of t, with f as the lvalue or rvalue it was passed as, and returns what f returns, references included; to_tuple(t) gives a '
     'std::tuple of references to the elements of t (of rvalue references for an rvalue t). Nothing is copied. Both work for compressed tuples, std::tuple, pairs and arrays, '
     'whatever their elements are.',
     ['programs', 'inputs'], 'All tuples, element types, value categories and functions.',
     'tests/apply.test.cpp and tests/to_tuple.test.cpp try a few tuples.',
     ['src/pigro/apply.h', 'src/pigro/to_tuple.h', 'src/pigro/compressed_tuple.h'], mech(('expansion of get<i>', 'apply.h: apply_impl')),
     ['arguments (value, address, category), result'], T('Apply', CASES),
     N('All tuples of up to three elements of five kinds (sampled in the quick check), random ones of up to nine.'))

prop('O15', 'A recursive function receives itself, and otherwise behaves like the function',
     'Calling recursive{ f } calls f once with the called object itself (constness and value category as it was called) followed by the arguments of the call as they '
     'are, and returns what f returns, references and void included. So state of f changed through a reference to itself is there in the next call, in recursive calls '
     'too, a self taken by value is a copy, copies of the object are independent, and nothing else is copied.',
     ['programs', 'histories', 'inputs'], 'All functions, ways to take self, arguments and sequences of calls and copies.',
     'tests/recursive.test.cpp tries a factorial and its size.',
     ['src/pigro/recursive.h'], mech(('self as first argument', 'recursive.h: recursive::operator() (four overloads)')),
     ['address, constness and category of self and of the arguments; result; state; copies'], T('Recursive'),
     N('State graphs of functions of each kind are covered; depth of recursion up to five.'))

prop('P18', 'enumerate passes every element of a pack once, in order, with its index',
     'enumerate_pack(f, xs...) calls f exactly once with one item per x, in order: item i knows i as a constant expression, and refers to x itself with its '
     'value category, without copying it. enumerate_n<n>(f) calls f once with the constants 0 ... n-1. Both return the (decayed) result of f, and an lvalue f keeps its state.',
     ['programs', 'inputs'], 'All packs: numbers, types, values and categories of elements, and functions.',
     'tests/pack_algorithms.test.cpp adds up a few numbers.',
     ['src/pigro/pack_algorithms.h'], mech(('indices of a pack', 'pack_algorithms.h: enumerate_n, enumerate_pack')),
     ['calls of f with indices, values, addresses and categories; result'], T('Pack', CASES),
     N('All combinations of value categories of up to four arguments, random packs of up to 14; enumerate_n up to 40.'))

prop('P19', 'filter, partition and concat of type lists keep all types in their order',
     'filter_if keeps exactly the types for which the predicate holds, partition gives these followed by the others, concat and + the lists one after the other, each with '
     'the original order and repetitions of types. A negated predicate holds exactly where the predicate does not.',
     ['programs'], 'All lists of types (of any kind, void, references and arrays included), and predicates.',
     'tests/partition.test.cpp samples a few lists.',
     ['src/pigro/partition.h'], mech(('type list algorithms', 'partition.h: filter_if, partition, concat, operator+, operator!')),
     ['resulting type lists'], T('Partition', CASES),
     N('All lists of up to two of four types with all predicates, larger ones sampled, random lists of up to 16 of nine types.'))

prop('V20', 'void adapters change nothing but void results; optional<regular_void> works',
     'regularized_void(f) and unregularized_void(f) called with arguments call f once with these values, and return what f returns, except that regularized_void turns '
     'void into a regular_void and unregularized_void the other way round. State of f is kept from call to call, and copies are independent. All regular_void values are equal, and '
     'std::optional<regular_void> is engaged exactly after a value was put in (until it is reset), and compares, copies, converts to bool and answers has_value and value accordingly.',
     ['programs', 'histories', 'inputs'], 'All functions, arguments and sequences of calls, copies and assignments.',
     'tests/regular_void.test.cpp samples single calls.',
     ['src/pigro/regular_void.h', 'src/pigro/bind_tuple.h'], mech(('void to value and back', 'regular_void.h: regularized_invoke, unregularized_invoke'), ('optional', 'regular_void.h: std::optional<regular_void>')),
     ['calls of f, type and value of results, state, states of optionals'], T('Void'),
     N('State graphs of functions of each kind and of three optionals are covered.'))

prop('U21', 'A function with uncaptured values is called with the arguments, then the values',
     'uncaptured(v1, ..., vn) >> f gives a function that calls f with the arguments of the call as they are, followed by v1, ..., vn in this order, once, and returns what f '
     'returns, references included. The function owns copies of f and of the values: what f does to its state or (through references) to the values is there in the next '
     'call, only there, and later changes of the originals are not seen; a const object gives const access.',
     ['programs', 'histories', 'inputs'], 'All functions, values (empty classes and repeated types included), arguments and sequences of calls and copies.',
     'tests/uncapture.test.cpp tries a few functions on single calls.',
     ['src/pigro/uncapture.h', 'src/pigro/empty_object.h'], mech(('order of the values', 'uncapture.h: operator>>'), ('access', 'uncapture.h: CompressedInvocable, Uncaptured')),
     ['arguments f is called with, addresses, result, state'], T('Bind'),
     N('State graphs of small functions are covered (sampled where large); larger ones get random histories.'))

prop('F22', 'Forwarding helpers change the type of an expression, never the object',
     'like_t<From, To> is To\'s object type with exactly the constness and reference kind of From, forward_like<From>(x) and as_nonconst(x) are x itself with that of From, '
     'or without const; access(fwd_capture(x)) is x itself for an lvalue x, and a moved-in copy owned by the capture (as its value category and constness say) for an rvalue. '
     'rebind_container_t keeps the element types of a container.',
     ['programs', 'inputs', 'histories'], 'All types, qualifiers and value categories.',
     'tests/utils.test.cpp checks a few combinations of types; captures are not tested.',
     ['src/pigro/forward_like.h', 'src/pigro/fwd_capture.h', 'src/pigro/utils.h'],
     mech(('copying of qualifiers', 'forward_like.h: like_t, forward_like'), ('capture', 'fwd_capture.h: fwd_capture, access'), ('casts', 'utils.h: as_nonconst, rebind_container')),
     ['types, addresses, values, copies'], T('Forward'),
     N('All combinations of qualifiers, with a number of object types; state graphs of captures.'))

prop('C23', 'Calls and types can be asked about, and the answer is right',
     'std::is_invocable and requires-expressions say of a binding, recursive function, uncaptured function, apply, or get, without compile error, that it can be called with given arguments exactly if the '
     'function inside can be called with the arguments it would get (get: if there is such an element). tuple_like, compressed_tuple and empty hold exactly for tuples (standard ones '
     'included), compressed tuples and empty classes, whatever their qualifiers, and only tuples can be bound. tuple_size and tuple_element tell the elements a compressed tuple was declared with, and structured bindings name them.',
     ['programs'], 'All functions, arguments, element types and qualifiers.',
     'The tests ask a handful of questions (tests/apply.test.cpp, tests/bind_tuple.test.cpp).',
     ['src/pigro/bind_tuple.h', 'src/pigro/apply.h', 'src/pigro/recursive.h', 'src/pigro/uncapture.h', 'src/pigro/compressed_tuple.h', 'src/pigro/concepts.h', 'src/pigro/utils.h'],
     mech(('trailing return types', 'bind_tuple.h, apply.h, recursive.h, uncapture.h'), ('concepts', 'concepts.h; compressed_tuple.h: concepts::compressed_tuple'), ('tuple protocol', 'compressed_tuple.h: std::tuple_size, std::tuple_element')),
     ['std::is_invocable, concepts, tuple_size, tuple_element, whether the call then compiles and runs'], T('Ask', CASES),
     N('Signatures of up to two parameters enumerated (sampled in the quick check), random ones of up to ten. Rvalue arguments of bindings taken by rvalue reference are not covered.'))

prop('K24', 'Constructs can be put into one another, and mean what their parts mean',
     'What any construct makes of a function (a binding by >>, <<, bind_front, bind_back or uncaptured, a recursive function, an overload set, a void adapter, a lazy function, an element of a compressed '
     'tuple, a capture, apply) can be used as a function in any other, to any depth and with repeated types, and compiles. A call of the whole invokes the functions inside exactly as often, with the arguments, as the constructs say one '
     'by one; the result, its type and exceptions come out through all of them; and the state of every function and the cache of every lazy object inside belong to the one object '
     'they are part of: it stays from call to call, goes along with copies and moves, and is not shared.',
     ['programs', 'histories', 'inputs'], 'All nestings of constructs and sequences of calls, copies, moves and exceptions.',
     'The tests try each construct on its own, with lambdas of their own; compositions occur in a few single calls.',
     ['src/pigro/bind_tuple.h', 'src/pigro/overload.h', 'src/pigro/recursive.h', 'src/pigro/uncapture.h', 'src/pigro/regular_void.h', 'src/pigro/lazy.h', 'src/pigro/compressed_tuple.h', 'src/pigro/apply.h'],
     mech(('storage of parts as bases', 'overload.h, uncapture.h: CompressedInvocable, compressed_tuple.h: make_compressed_tuple_base'), ('deduction guides', 'recursive.h, overload.h'),
          ('forwarding of calls', 'bind_tuple.h, regular_void.h, lazy.h, recursive.h')),
     ['calls of the functions inside with arguments and state, result, its type, exceptions, std::is_invocable'], T('Compose'),
     N('Each pair of constructs inside one another, and random trees of depth up to five, drawn from the seed. Overload sets are of functions with different numbers of arguments; whether trees with void adapters or lazies can be called '
       'is not asked; nothing throws in trees with lazy objects (L06).'))
