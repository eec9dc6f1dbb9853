DS="delayed_sequence.h"; SL="slice.h"; UI="internal/uninitialized_iterator.h"; ZP="internal/delayed/zip.h"; SO="internal/sequence_ops.h"; CM="internal/delayed/common.h"; RD="random.h"; DL="delayed.h"
MUT=[
("V01","ds-index-op",DS,[("T operator[](size_t i) const { return parent->f(index + i); }","T operator[](size_t i) const { return parent->f(parent->first + i); }")],"V"),
("V01","ds-postdec",DS,[("      auto tmp = *this;\n      index--;\n      return tmp;","      index--;\n      auto tmp = *this;\n      return tmp;")],"V"),
("V01","ds-le",DS,[("      return index <= other.index;","      return index < other.index;")],"V"),
("V01","ds-size",DS,[("    return last - first;","    return last;")],"V"),
("V01","ds-front",DS,[("    return f(first);","    return f(0);")],"V"),
("V01","ds-begin",DS,[("  iterator begin() const { return iterator(this, first); }","  iterator begin() const { return iterator(this, 0); }")],"V"),
("V01","ds-at",DS,[("    if (i < first || i >= last) {","    if (i < first || i + 1 >= last) {")],"V"),
("V01","ds-diff",DS,[("      return static_cast<std::ptrdiff_t>(index)\n        - static_cast<std::ptrdiff_t>(other.index);","      return static_cast<std::ptrdiff_t>(static_cast<int>(index)\n        - static_cast<int>(other.index));")],"V"),
("V01","ds-diff-u",DS,[("      return static_cast<std::ptrdiff_t>(index)\n        - static_cast<std::ptrdiff_t>(other.index);","      return static_cast<std::ptrdiff_t>(index > other.index ? index - other.index : other.index - index);")],"V"),
("V01","ds-rend",DS,[("  reverse_iterator rend() const { return std::make_reverse_iterator(begin()); }","  reverse_iterator rend() const { return std::make_reverse_iterator(iterator(this, 0)); }")],"V"),
("V01","sl-cut",SL,[("    return make_slice(s + ss, s + ee);","    return make_slice(s + ss, s + ss + ee);")],"V"),
("V01","sl-eq",SL,[("  return s1.begin() == s2.begin() && s1.end() == s2.end();","  return s1.begin() == s2.begin() && s1.size() <= s2.size();")],"V"),
("V01","ui-minus",UI,[("    auto result = *this;\n    result -= diff;\n    return result;","    auto result = *this;\n    result += diff;\n    return result;")],"V"),
("V01","ui-idx",UI,[("    return it[p].value;","    return (it + static_cast<int>(p))->value;")],"V"),
("V01","ui-ge",UI,[("    return it >= other.it;","    return !(it <= other.it);")],"V"),
("V01","ui-postinc",UI,[("    auto tmp = *this;\n    ++(*this);\n    return tmp;","    ++(*this);\n    auto tmp = *this;\n    return tmp;")],"V"),
("V01","zip-off",ZP,[("auto size = (std::min)({parlay::size(vs)...});","auto size = (std::max)({parlay::size(vs)...});")],"V"),
("V01","cm-nb",CM,[("  return (n == 0) ? 0 : (1 + (n - 1) / block_size);","  return (n == 0) ? 0 : (1 + n / block_size);")],"V"),
("V01","cm-end",CM,[("  size_t end = (std::min)((i+1) * block_size, n);","  size_t end = (std::min)((i+1) * block_size - 1, n);")],"V"),
("V01","rg-state",RD,[("    return random_generator(static_cast<size_t>(hash64((i+1)*0x7fffffff + state))); }","    static size_t used = 0; return random_generator(static_cast<size_t>(hash64((i+1)*0x7fffffff + state + (used++ > 100000)))); }")],"V"),
("V01","rd-rand",RD,[("size_t rand() { return ith_rand(0); }","size_t rand() { return state = ith_rand(0); }")],"V"),
("V01","map-move",SO,[("  return delayed_tabulate(n, [ri = std::begin(r), f = std::move(f) ]","  return delayed_tabulate(n, [ri = std::begin(r) + (n > 4096), f = std::move(f) ]")],"V"),
("V01","r-ds-post",DS,[("      auto tmp = *this;\n      index--;\n      return tmp;","      return iterator(parent, index--);")],"Q"),
("V01","r-ds-cmp",DS,[("      return index <= other.index;","      return !(*this > other);")],"Q"),
("V01","r-ds-empty",DS,[("    return size() == 0;","    return first == last;")],"Q"),
("V01","r-ds-sub",DS,[("      return iterator(parent, index - delta);","      auto it = *this;\n      it -= delta;\n      return it;")],"Q"),
("V01","r-ds-back",DS,[("    return f(last-1);","    return *(end() - 1);")],"Q"),
("V01","r-sl-cut",SL,[("    return make_slice(s + ss, s + ee);","    auto from = s + ss;\n    return make_slice(from, from + (ee - ss));")],"Q"),
("V01","r-sl-size",SL,[("size_t size() const { return e - s; }","size_t size() const { return static_cast<size_t>(std::distance(s, e)); }")],"Q"),
("V01","r-ui",UI,[("    return it[p].value;","    return *(*this + static_cast<difference_type>(p));")],"Q"),
("V01","r-cm-nb",CM,[("  return (n == 0) ? 0 : (1 + (n - 1) / block_size);","  return (n + block_size - 1) / block_size;")],"Q"),
("V01","r-cm-begin",CM,[("  size_t start = (std::min)(i * block_size, n);\n  return std::begin(r) + start;","  const size_t start = i * block_size;\n  if (start >= n) return std::begin(r) + n;\n  return std::begin(r) + start;")],"Q"),
("V01","r-rd",RD,[("size_t operator[](size_t i) const { return ith_rand(i); }","size_t operator[](size_t i) const { return static_cast<size_t>(hash64(state + i)); }")],"Q"),
]
