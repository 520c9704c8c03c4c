#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
D = "include/dice/template-library/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[D + f for f in files],
            state=[dict(name=a, meaning=b, where=D + c) for a, b, c in state],
            mechanism=[dict(name=a, where=D + b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "ipow is exact or throws the right error",
  "For every base and exponent of any integral types (bool aside, which has no arithmetic), ipow returns exactly base raised to exp (in the base's type) whenever that value is representable; otherwise it throws std::overflow_error if the true result is above the type's maximum and std::underflow_error if it is below the minimum, never a wrapped value and never a spurious error. A negative exponent yields the result truncated towards zero (1 for base 1, +-1 by parity for base -1, otherwise 0).",
  ["inputs"], "every (base, exp) of every signed/unsigned integral type pair",
  "Tests check a few dozen literal pairs; the spurious-overflow, parity and boundary cases depend on the full bit pattern of two 64-bit numbers.",
  ["ipow.hpp"], [("square-and-multiply with checked multiplication", "ipow.hpp"), ("last square skipped", "ipow.hpp")], observe=["return value / thrown type of ipow"])

p("C02", "pointer_tag_pair packs and unpacks pointer and tag losslessly",
  "Constructing a pointer_tag_pair from a sufficiently aligned pointer and an in-range tag and reading it back (pointer(), tag(), structured bindings, from_tagged(tagged_pointer())) returns exactly the given pointer and tag, for every pointer type convertible to T*, tag value, requested bit count and constructor (aligned, overaligned, null). Two pairs compare equal exactly when pointer and tag are equal, comparison is a total order consistent with that, and swap exchanges both components.",
  ["inputs", "configurations"], "every pointer value with the required alignment, every tag value, every bit count up to the alignment",
  "Tests use a handful of addresses and tags with two bit widths.",
  ["pointer_tag_pair.hpp"], [("ptr_mask/tag_mask", "pointer_tag_pair.hpp"), ("constructors, pointer(), tag(), from_tagged()", "pointer_tag_pair.hpp")], [("value_", "pointer bits | tag bits", "pointer_tag_pair.hpp")])

p("C03", "variant2 constructs and destroys each alternative exactly once",
  "Across every sequence of construction, copy, move, assignment, emplace, swap and destruction of variant2 objects, and wherever an operation of an alternative throws, each alternative object is constructed in raw storage only, used only while alive, and destroyed exactly once. After an operation throws, the variant either still holds a live value or reports valueless_by_exception, and it stays safely assignable and destructible.",
  ["histories", "fault_sequences", "inputs"], "all states of source and target (first, second, valueless), all alternative types (trivial or not, throwing or not), every throw point",
  "Tests throw at a few chosen points with particular types; lifetime errors show only for a specific (state, state, throw point, type-trait) combination.",
  ["variant2.hpp"], [("DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY", "variant2.hpp"), ("copy/move/value assignment, emplace, destructor", "variant2.hpp")], [("discriminant_", "which union member is alive", "variant2.hpp")])

p("C04", "variant2 observers and comparisons agree with the value held",
  "After any successful construction, assignment, emplace or swap, a variant2 holds the alternative and value that std::variant would hold, and index, holds_alternative, get, get_if and visit all agree with it (throwing bad_variant_access or returning null on mismatch or when valueless). Equality and ordering compare alternative first and then value, with valueless smallest, exactly as std::variant does; hash is equal for equal variants.",
  ["inputs", "histories"], "all values, states and operation sequences of two variants",
  "Tests fix concrete values; agreement must hold for every value and every pair of states.",
  ["variant2.hpp"], [("get_impl/get_if_impl/visit_impl", "variant2.hpp"), ("operator== and <=>", "variant2.hpp"), ("std::hash specialisation", "variant2.hpp")], [("discriminant_", "active alternative", "variant2.hpp")])

p("C05", "inplace_polymorphic holds one live object or is valueless",
  "Across any sequence of construction, emplace, copy/move construction and assignment, and destruction, also when a constructor or copy/move hook throws, an inplace_polymorphic owns at most one live object, destroys each object it created exactly once through its dynamic type, and never touches a dead one. It gives access to a live object of the type last placed, or reports valueless and throws bad_variant_access from every accessor; assigning from a valueless object makes the target valueless.",
  ["histories", "fault_sequences"], "all operation sequences, trivially and non-trivially destructible hierarchies, every throw point",
  "Tests cover a few sequences with one hierarchy; assignment with trivially destructible types or from valueless sources is not reached.",
  ["inplace_polymorphic.hpp"], [("drop, copy_from, move_from", "inplace_polymorphic.hpp"), ("DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY", "inplace_polymorphic.hpp")], [("valueless_", "no live object in the storage", "inplace_polymorphic.hpp")])

p("C06", "static_string holds exactly the characters it was given",
  "A basic_static_string of any character type constructed or assigned from any source (including embedded nulls and the empty string) has that source's length and characters afterwards, through every accessor, iterator, view conversion, comparison and stream output; the source is unchanged by a copy; after a move it is empty, holds what the target held, or (assignment between unequal allocators that do not propagate) is unchanged. Comparison results equal those of the corresponding string_views.",
  ["inputs", "configurations"], "every length, content, character width and allocator kind (equal, unequal, propagating or not)",
  "Tests use short ASCII literals of type char; width-dependent and length-dependent copying errors need other character types or contents.",
  ["static_string.hpp"], [("constructors and copy_assign_from_other", "static_string.hpp"), ("view_type conversion", "static_string.hpp")], [("data_, size_", "owned buffer and its length", "static_string.hpp")])

p("C07", "static_string frees every buffer once, with its own allocator",
  "Every buffer a static_string obtains is returned exactly once, with the same length, to an allocator equal to the one it came from, across all construction, assignment, move and swap combinations and propagation traits. If an allocation throws, nothing leaks, nothing is freed twice and the object remains valid.",
  ["histories", "fault_sequences", "configurations"], "all operation sequences over allocators with every propagation trait, with allocation failing at any point",
  "Tests use the default allocator, for which the wrong-allocator and failed-allocation paths are indistinguishable or unreachable.",
  ["static_string.hpp"], [("allocator propagation in assignment", "static_string.hpp"), ("destructor", "static_string.hpp")], [("alloc_", "allocator that owns data_", "static_string.hpp")])

p("C08", "flex_array keeps its bounds and the elements in order",
  "Constructing a flex_array in any size mode from an initializer list, iterator range or another flex_array yields exactly the given elements in order and never writes outside its storage; too many elements (or a wrong count for a fixed-size initializer or conversion) throws std::length_error. resize beyond the maximum throws std::invalid_argument and leaves the array unchanged, a permitted resize keeps the common prefix, and size, empty, iterators, indexing and span conversions all describe the same elements.",
  ["inputs", "configurations"], "all lengths, element values, iterator categories and extent combinations",
  "Tests use a few fixed lists; off-by-one at the capacity boundary and per-iterator-category paths need exact sizes.",
  ["flex_array.hpp"], [("constructors and resize", "flex_array.hpp"), ("flex_array_inner::set_size", "flex_array.hpp")], [("size_ / data_", "logical size and storage", "flex_array.hpp")])

p("C09", "flex_array comparison is lexicographic over live elements",
  "For every pair of flex_arrays of the same type, == holds exactly when sizes and all live elements are equal and <=> (and <, <=, >, >=) is the lexicographical three-way comparison of the live elements; elements beyond the logical size never influence any result. Copy, move, assignment and swap preserve or exchange the compared contents exactly.",
  ["inputs", "histories"], "all contents, sizes and stale storage contents",
  "Tests compare a few literal arrays and never vary stale elements beyond the logical size.",
  ["flex_array.hpp"], [("comparison operators of flex_array_inner", "flex_array.hpp"), ("swap", "flex_array.hpp")])

p("C10", "limit_allocator never exceeds its byte budget and never loses any",
  "At every moment, on every interleaving of threads for the synchronized variant, the bytes outstanding through all copies, rebinds and moved-to instances of a limit_allocator plus the bytes left equal the configured limit; a request that does not fit (including one whose byte size overflows) throws std::bad_alloc and changes nothing. A failing upstream allocation returns its reservation, and deallocation returns exactly the bytes that were taken.",
  ["schedules", "inputs", "fault_sequences"], "all request sizes, interleavings of allocate/deallocate and upstream failures",
  "Tests run a fixed sequence with small sizes; the check-then-act race, wrap-around of the byte count and the failure path need specific schedules or sizes.",
  ["limit_allocator.hpp"], [("compare_exchange loop", "limit_allocator.hpp"), ("rollback on upstream exception", "limit_allocator.hpp")], [("bytes_left", "remaining budget", "limit_allocator.hpp")])

p("C11", "pool allocations go to the smallest fitting bucket and back to it",
  "Every pool allocation returns storage of at least the requested bytes, from the smallest bucket that fits or directly from new when none does, and throws when memory is exhausted or the requested element count overflows. Deallocating with the same size returns the block to exactly the place it came from; copies, moves, rebinds and swaps of pool_allocators keep referring to the pool that owns their blocks and compare equal exactly when they share a pool.",
  ["inputs", "configurations", "fault_sequences"], "every request size, bucket configuration, element type and failure point",
  "Tests allocate a few sizes; boundary sizes and size overflow are not sampled.",
  ["pool_allocator.hpp"], [("allocate_impl/deallocate_impl", "pool_allocator.hpp"), ("pool_allocator::allocate/deallocate", "pool_allocator.hpp")], [("pools_", "one pool per bucket size", "pool_allocator.hpp")])

p("C12", "polymorphic_allocator forwards to the allocator it holds",
  "Every allocate and deallocate on a polymorphic_allocator reaches exactly the allocator alternative it currently holds, with unchanged arguments and result, also after copy, move, assignment, swap, rebinding to another value type and select_on_container_copy_construction. holds_allocator and equality agree with the held alternative and its value, and propagation traits hold only if they hold for every alternative.",
  ["inputs", "histories", "configurations"], "all alternatives, argument values and operation sequences",
  "Tests use stateless allocators in one or two arrangements, for which misrouting to an equal allocator is invisible.",
  ["polymorphic_allocator.hpp", "variant2.hpp"], [("visit dispatch in allocate/deallocate", "polymorphic_allocator.hpp"), ("converting constructor", "polymorphic_allocator.hpp")], [("alloc_", "held allocator alternative", "polymorphic_allocator.hpp")])

p("C13", "channel delivers each element once, in order, within capacity",
  "In every interleaving of any number of producers and consumers, elements leave a channel in the order they were accepted, each accepted element is delivered at most once and unaltered, and the number of buffered elements never exceeds the capacity. A push or emplace reports true exactly when its element was accepted; after close no element is accepted, while elements already buffered can still be popped, and only then does pop report the end.",
  ["schedules", "histories", "inputs"], "all interleavings, capacities, element values and close points",
  "Tests run a few thread schedules chosen by the OS; a race at close or at capacity needs a particular interleaving.",
  ["channel.hpp"], [("queue under mutex", "channel.hpp"), ("closed flag re-checked under the lock", "channel.hpp")], [("queue_, max_cap_, closed_", "buffered elements, bound, closed state", "channel.hpp")])

p("C14", "exchange_channel delivers only the latest value, at most once",
  "In every interleaving, a pop or try_pop on an exchange_channel returns the most recently accepted value not yet taken, each accepted value is returned at most once, and a value overwritten before being taken is never returned. emplace and push report true exactly when the value was stored; nothing is stored after close, a value stored before close can still be popped, and then pop reports the end.",
  ["schedules", "histories", "inputs"], "all interleavings, values and close points",
  "Tests sample a few schedules; overwrite/close races need specific ones.",
  ["exchange_channel.hpp"], [("value under mutex", "exchange_channel.hpp"), ("closed flag re-checked under the lock", "exchange_channel.hpp")], [("value_, closed_", "latest value, closed state", "exchange_channel.hpp")])

p("C15", "No blocked channel operation misses the event it waits for",
  "In both channel kinds, whenever an operation makes a condition true that another thread may be waiting for (an element available, free capacity, closed), that thread is woken: no schedule leaves a pop blocked while an element is available, a push blocked while capacity is free, or any waiter blocked after close. Shared state is only accessed under the mutex that guards it, and no operation returns or throws with the mutex held.",
  ["schedules", "histories"], "all interleavings of blocking and non-blocking operations and close",
  "A lost wake-up needs a waiter to be between its check and its sleep; tests hit that window only by chance.",
  ["channel.hpp", "exchange_channel.hpp"], [("notify after every state change, close under the lock", "channel.hpp"), ("condition wait predicates", "exchange_channel.hpp")])

p("C16", "mutex guards give exclusive access exactly while they own the lock",
  "The value inside a mutex or shared_mutex can be reached through a guard only while that guard holds the matching lock: exclusive guards exclude all others, shared guards exclude only writers and give const access, and try_lock variants return a guard exactly when the lock was obtained. A guard releases its lock exactly once when destroyed, overwritten or after being moved (moved-from guards release nothing), always refers to the value of the lock it holds, and constructors initialise the value from their arguments.",
  ["schedules", "histories", "inputs"], "all guard operation sequences and lock outcomes",
  "Tests exercise a couple of guard lifetimes; double release or a guard paired with another mutex's value needs specific move/swap sequences.",
  ["mutex.hpp", "shared_mutex.hpp"], [("guard holds unique_lock/shared_lock plus value pointer", "mutex.hpp"), ("lock/try_lock/lock_shared", "shared_mutex.hpp")], [("lock_, value_ptr_", "owned lock and guarded value", "mutex.hpp")])

p("C17", "Deferred actions run exactly once on exactly the right exits",
  "A deferred action runs exactly once when its scope ends: always for the plain form, only when the scope is left by an exception for the fail form, and only when it is left without one for the success form, also when the guard itself lives inside a destructor run during unwinding of another exception. Actions run in reverse order of declaration, and an exception thrown by a success action propagates.",
  ["histories", "fault_sequences"], "all nestings of scopes, exceptions and in-flight exception counts",
  "Tests check a fixed set of nestings; the in-flight exception count at construction is unconstrained.",
  ["defer.hpp"], [("uncaught_exceptions comparison", "defer.hpp")], [("uncaught_exceptions_", "exceptions in flight at construction", "defer.hpp")])

p("C18", "switch_cases and switch_bool dispatch to exactly the matching case",
  "For every runtime condition, switch_cases invokes exactly once the case function with the compile-time constant equal to the condition when it lies in the half-open interval spanned by the two bounds (in either order), and otherwise invokes only the default, returning that call's result (and reference category) unchanged. switch_bool invokes the function exactly once with the constant equal to its condition.",
  ["inputs", "configurations"], "every condition value and representative bounds (ascending, descending, empty, negative, unsigned, type limits)",
  "Tests try a few conditions on small ranges; boundary and out-of-range values of the whole type are not covered.",
  ["switch_cases.hpp"], [("execute_case recursion", "switch_cases.hpp"), ("min/max range test", "switch_cases.hpp")])

p("C19", "opt_min/opt_max/opt_minmax ignore empties and return the true extremum",
  "For every sequence of values or optionals and every strict weak order, the optional minimum/maximum/minmax functions return nullopt exactly when no element has a value, and otherwise an element's value that no other present element beats, taking the first such element except that a comparator is only ever applied to present values. Binary, initializer-list, iterator, range and pipeline forms agree.",
  ["inputs"], "all lengths, presence patterns, values and comparators",
  "Tests use short literal lists; the result must hold for every pattern of empties and ties.",
  ["opt_minmax.hpp", "ranges.hpp"], [("opt_min_element_impl and siblings", "opt_minmax.hpp")])

p("C20", "range() yields exactly start, start+step, ... before stop",
  "For all integral start, stop and non-zero step, iterating range(start, stop, step) yields exactly the values start + i*step that lie strictly before stop in the step's direction, once each and in order, then ends, without wrapping or undefined behaviour at type limits; step zero throws std::invalid_argument. size, empty, bool, front, back, indexing, advance and reversed iteration are all consistent with that sequence.",
  ["inputs"], "every start, stop, step of the supported integral types",
  "Tests use small aligned ranges; values near type limits and spans not divisible by the step are not covered.",
  ["ranges.hpp", "next_to_range.hpp"], [("range_iterator next/nth/remaining/next_back/nth_back", "ranges.hpp")], [("current_, stop_, step_", "iteration state", "ranges.hpp")])

p("C21", "next()-based iterators become equivalent C++ iterators and ranges",
  "For every next()-style iterator, the adapted iterator, range, view and reverse forms visit exactly the values next() (or next_back()) returns, in order, until the first nullopt, and begin() always restarts independently. Advancing by n equals n single increments (never reading past the end), peek returns the value the following increment makes current without moving, and front, back, indexing, advance, size and empty agree with the underlying sequence.",
  ["inputs", "histories"], "all underlying sequences, mixes of increment, skip-by-n, peek and copy, and all n",
  "Tests walk a few short sequences; the interaction of peek with skipping at every position is a history property.",
  ["next_to_range.hpp"], [("advance/advance_by/peek", "next_to_range.hpp"), ("next_to_range / next_to_view", "next_to_range.hpp")], [("cur_, peeked_", "current and looked-ahead value", "next_to_range.hpp")])

p("C22", "Range predicates decide what they claim for every range",
  "For every input range and predicate: all_equal, all_distinct, is_sorted_unique, all_of, any_of, none_of, empty and non_empty return exactly the truth of their documented statement over all elements, and their iterator, range and pipeline forms agree. The predicate or comparator is applied only to elements of the range and the range is traversed within its bounds.",
  ["inputs"], "all lengths, contents, predicates and iterator categories",
  "Tests check literal vectors; a wrong answer may need a violation at one position of a longer range.",
  ["ranges.hpp"], [("all_equal_impl, all_distinct_impl, is_sorted_unique_impl", "ranges.hpp"), ("DTL_DEFINE_SINGLE_FUNC_BASED_RANGE_ALGO", "ranges.hpp")])

p("C23", "Range comparison, unique and remove_element produce the right sequence",
  "lexicographical_compare_three_way returns for every pair of ranges the ordering of their first differing projected elements, or of their lengths when one is a prefix of the other. The unique view yields exactly the first occurrence of each distinct element in order, and remove_element yields exactly the elements not matching the value, in order.",
  ["inputs"], "all lengths, contents, projections and comparators",
  "Tests use a few literal ranges.",
  ["ranges.hpp"], [("lexicographical_compare_three_way_fn", "ranges.hpp"), ("unique_view::iterator", "ranges.hpp"), ("remove_element_impl", "ranges.hpp")])

p("C24", "standard_layout and integral template tuples address the right element",
  "For every tuple and index, get (by index or type, in every value category) refers to exactly the element constructed from the corresponding argument, subtuple refers to the same objects as the original elements it spans, and writes through either are seen by the other. visit reaches every element once in index order, comparison is element-wise lexicographic, and ascending and descending integral index ranges behave alike.",
  ["inputs", "configurations"], "all element values, types, offsets, counts and index directions",
  "Tests use a couple of homogeneous layouts with literal values.",
  ["standard_layout_tuple.hpp", "integral_template_tuple.hpp"], [("get / subtuple", "standard_layout_tuple.hpp"), ("make_index, subtuple", "integral_template_tuple.hpp")])

p("C25", "integral_template_variant tracks the integral index of its value",
  "After every construction, assignment and emplace, an integral_template_variant reports as index the integral parameter of the alternative it holds (ascending or descending), get and visit reach that very object, get of any other index throws bad_variant_access, and holds_alternative, comparison and hash agree. An exception thrown by an alternative's copy, move or construction reaches the caller.",
  ["inputs", "histories", "fault_sequences"], "all indices, directions, values and throw points",
  "Tests check a few indices of one range and never throw.",
  ["integral_template_variant.hpp"], [("index()", "integral_template_variant.hpp"), ("get/visit/emplace", "integral_template_variant.hpp")])

p("C26", "Tuple algorithms and for_* loops visit each item once, in order",
  "tuple_fold, tuple_type_fold, tuple_for_each, tuple_type_for_each, for_types, for_values and for_range apply the function exactly once per element, type or value, in the documented order (descending ranges included), thread the accumulator through every step, return the documented result, and pass elements by the right reference.",
  ["inputs", "configurations"], "all element values, initial accumulators and range bounds",
  "Tests fix values and check aggregates that hide order or value-category errors.",
  ["tuple_algorithm.hpp", "for.hpp"], [("fold expressions", "tuple_algorithm.hpp"), ("for_range", "for.hpp")])

p("C27", "sandbox reports how the child process ended",
  "For every way the sandboxed function and its process can end, the sandbox returns success exactly for exit code 0, failure for any other exit code, and the terminating signal otherwise; it retries waiting when interrupted by a signal and throws std::system_error when fork or wait fails. The function runs only in the child, with default signal handling, its exit code is the function's result (0 for void), and buffered output is flushed once.",
  ["fault_sequences", "inputs"], "every wait status, every fork/wait failure and interruption sequence, every function result",
  "Tests run a few children; interrupted waits and system call failures are not provoked.",
  ["sandbox.hpp"], [("fork/waitpid loop and status decoding", "sandbox.hpp"), ("clear_all_signal_handlers, flush_all_streams", "sandbox.hpp")])

p("C28", "fmt_join writes every element once with separators only in between",
  "For every range, separator and element format, formatting an fmt_join writes the formatted elements in order with exactly one separator between neighbours, none before the first or after the last, and nothing for an empty range.",
  ["inputs"], "all lengths, element values, separators and output iterators",
  "Tests format a few literal ranges.",
  ["fmt_join.hpp"], [("formatter<joiner>::format", "fmt_join.hpp")])

p("C29", "Call-forwarding helpers forward arguments, results and exceptions intact",
  "overloaded and match call exactly the overload selected for the held alternative; bind_front calls the bound function with the bound arguments first and the call arguments after, each with the right value category; the member-function helper calls the named member on this object; each returns the callee's result and reference category unchanged and lets its exceptions through.",
  ["inputs", "configurations"], "all argument values, value categories and alternatives",
  "Tests use literal values and check results rather than identity and value category of what is forwarded.",
  ["overloaded.hpp", "functional.hpp", "memfn.hpp"], [("match", "overloaded.hpp"), ("bind_front", "functional.hpp"), ("DICE_MEMFN", "memfn.hpp")])

p("C30", "Integer literal suffixes produce the written value in the named type",
  "For every literal value representable in the suffix's type, each fixed-width literal suffix yields exactly that value with exactly the named type.",
  ["inputs"], "every representable value of each of the twelve suffixes",
  "Tests use one or two literals per suffix.",
  ["stdint.hpp"], [("user-defined literal operators", "stdint.hpp")])

p("C31", "Type lists and type traits compute the documented types",
  "For every list of types, each type-list operation and type trait denotes the type or value its documentation describes.",
  ["programs"], "all instantiations with any types",
  "Tests instantiate a few lists.",
  ["type_list.hpp", "type_traits.hpp", "lazy_conditional.hpp", "integral_sequence.hpp"], [("template metafunctions", "type_list.hpp")])

p("C32", "Debug printing and ostream formatting pass values through unchanged",
  "The debug macro evaluates its expression once and yields the very same value and reference category it was given; streaming a formattable value writes exactly its formatted text.",
  ["inputs"], "all values and value categories",
  "Tests print a few literals.",
  ["dbg.hpp", "format_to_ostream.hpp"], [("DICE_DBG", "dbg.hpp"), ("operator<<", "format_to_ostream.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
