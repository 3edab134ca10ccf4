"""Which library routines stay opaque ("atomic") when a unit is inlined."""
import functools
import re


@functools.lru_cache(None)
def qual(d):
    """'double std::foo<int>::bar<X>(Y) const' -> 'std::foo::bar' (template arguments, parameters, return type cut)"""
    if d.startswith("_Z"):
        return d
    d = d.replace("(anonymous namespace)", "{anon}").replace("operator<<", "operator@shl").replace("operator>>", "operator@shr") \
         .replace("operator<=", "operator@le").replace("operator>=", "operator@ge").replace("operator->", "operator@arrow") \
         .replace("operator<", "operator@lt").replace("operator>", "operator@gt").replace("operator()", "operator@call")
    out = []
    depth = 0
    i = 0
    n = len(d)
    while i < n:
        c = d[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            if c == "{":
                # lambda name: keep as {lambda}
                j, k = i, 0
                while j < n:
                    if d[j] == "{":
                        k += 1
                    elif d[j] == "}":
                        k -= 1
                        if k == 0:
                            break
                    j += 1
                out.append("{lambda}" if "lambda" in d[i:j] else d[i:j + 1])
                i = j + 1
                continue
            if c == "(":
                # parameter list: skip to the matching ')'
                j, k = i, 0
                while j < n:
                    if d[j] == "(":
                        k += 1
                    elif d[j] == ")":
                        k -= 1
                        if k == 0:
                            break
                    j += 1
                rest = d[j + 1:]
                if not rest.strip().startswith("::") and not rest.strip().startswith("const::"):
                    break
                i = j + 1
                if rest.startswith(" const"):
                    i += 6
                continue
            out.append(c)
        i += 1
    s = "".join(out).strip()
    # cut the return type: last space outside of "operator new"/conversion
    s = re.sub(r"operator (?=\w)", "operator@", s)
    s = s.split(" ")[-1]
    return (s.replace("operator@shl", "operator<<").replace("operator@shr", "operator>>").replace("operator@call", "operator()")
            .replace("operator@lt", "operator<").replace("operator@gt", "operator>").replace("operator@le", "operator<=")
            .replace("operator@ge", "operator>=").replace("operator@arrow", "operator->").replace("operator@", "operator "))


RNG = re.compile(r"^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|"
                 r"\w*_engine|\w*_distribution|seed_seq|random_device|generate_canonical)(::|$)")
ALGO = re.compile(r"^std::(sort|stable_sort|partition|stable_partition|is_sorted|is_sorted_until|lower_bound|upper_bound|nth_element|"
                  r"partial_sort|min_element|max_element|minmax_element|accumulate|partial_sum|shuffle|random_shuffle|unique|iota|"
                  r"reverse|rotate|make_heap|push_heap|pop_heap|binary_search|equal_range)$")
STREAM = re.compile(r"^std::(basic_\w*stream|basic_ios|ios_base|basic_\w*buf|operator<<|operator>>|endl|flush|fixed|scientific|setprecision|setw|"
                    r"__cxx11::|basic_string|operator\+|map|_Rb_tree|_Rb_tree_iterator|unordered_map|_Hashtable|set|locale|chrono|to_string|sto\w+|function|_Function\w*|"
                    r"runtime_error|exception|logic_error|thread|shared_ptr|unique_ptr|__shared|string|char_traits|__detail::_Hash)")
SYNC = re.compile(r"^std::(mutex|recursive_mutex|timed_mutex|__mutex_base|__condvar|atomic_flag|call_once|future|promise|async)(::|$)")
VEC = re.compile(r"^std::(vector|_Vector_base|deque|list|_Bvector_base|_Deque_base)::")
VEC_INLINE = re.compile(r"::(begin|end|cbegin|cend|rbegin|rend|crbegin|crend|size|empty|operator\[\]|front|back|data|_M_data_ptr|at|_M_range_check)$")


def std_atomic(d):
    q = qual(d)
    if q.startswith("ScopedTimer::"):
        return True
    if not q.startswith("std::"):
        return False
    if RNG.match(q) or ALGO.match(q) or STREAM.match(q) or SYNC.match(q):
        return True
    if q.startswith("std::condition_variable"):
        return "lambda" not in d
    if VEC.match(q) and not VEC_INLINE.search(q):
        return True
    return False


def default(name, d):
    return std_atomic(d) or qual(d).startswith("intsort::")


def with_sort(name, d):
    return std_atomic(d)
