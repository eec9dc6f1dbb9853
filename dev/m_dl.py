C="internal/delayed/common.h"; T="internal/delayed/terminal.h"; S="internal/delayed/scan.h"; Z="internal/delayed/zip.h"; D="delayed_sequence.h"
MUT=[
("D01","dl-nblocks",C,[("(1 + (n - 1) / block_size)","(n / block_size)")],"V"),
("D01","dl-nblocks-eq",C,[("(1 + (n - 1) / block_size)","((n + block_size - 1) / block_size)")],"Q"),
("D01","dl-begin-nomin",C,[("size_t start = (std::min)(i * block_size, n);","size_t start = i * block_size;")],"V"),
("D01","dl-end-off",C,[("size_t end = (std::min)((i+1) * block_size, n);","size_t end = (std::min)((i+1) * block_size - (i > 7), n);")],"V"),
("D01","dl-end-eq",C,[("size_t end = (std::min)((i+1) * block_size, n);","size_t end = i * block_size + (std::min)(block_size, n - (std::min)(n, i * block_size));")],"Q"),
("D01","dl-scan-noid",S,[("T result = identity;\n        if (i == n_blocks) return result;","T result = identity;\n        if (i == n_blocks) return result;\n        if (i > 3) result = op(result, *begin_block(base_view(), i));")],"V"),
("D01","dl-scan-order",S,[("        value = (parent->op)(std::move(value), *it);\n        ++it;\n      }\n      return","        ++it;\n        value = (parent->op)(std::move(value), *it);\n      }\n      return")],"V"),
("D01","dl-scan-comm",S,[("          result = op(std::move(result), *it);","          result = op(*it, std::move(result));")],"V"),
("D01","dl-scan-incl-end",S,[("if (++it != std::end(parent->base_view()))","if (++it, true)")],"V"),
("D01","dl-incl-first",S,[("block_sums[i] = op(std::move(block_sums[i]), *begin_block(base_view(), i));","if (n_blocks < 3 || i > 0) block_sums[i] = op(std::move(block_sums[i]), *begin_block(base_view(), i));")],"V"),
("D01","dl-single-oob",S,[("block_sums = sequence<T>(n_blocks + 1, identity);","block_sums = sequence<T>(n_blocks, identity);")],"V"),
("D01","dl-red-skip",T,[("    auto it = begin_block(v, i), last = end_block(v, i);\n    for (; it != last; ++it) {\n      result =","    auto it = begin_block(v, i), last = end_block(v, i);\n    if (i > 10) ++it;\n    for (; it != last; ++it) {\n      result =")],"V"),
("D01","dl-toseq-off",T,[("std::uninitialized_copy(begin_block(v, i), end_block(v, i), out.begin() + i * block_size);","std::uninitialized_copy(begin_block(v, i), end_block(v, i), out.begin() + (i * block_size) / 2);")],"V"),
("D01","dl-zip-max",Z,[("n_elements((std::min<size_t>)","n_elements((std::max<size_t>)")],"V"),
("D01","dl-zip-nomin",Z,[("auto get_begin_block(size_t i) {\n    return std::apply([i, n = n_elements](UnderlyingViews&... views) {\n      return iterator(std::min(n, i * block_size)","auto get_begin_block(size_t i) {\n    return std::apply([i, n = n_elements](UnderlyingViews&... views) {\n      return iterator(i * block_size")],"V"),
("D01","dl-fe-loop",T,[("    auto it = begin_block(v, i), last = end_block(v, i);\n    for (; it != last; ++it) {\n      f(*it);\n    }","    auto it = begin_block(v, i);\n    const auto last = end_block(v, i);\n    while (it != last) {\n      f(*it);\n      ++it;\n    }")],"Q"),
("D01","dl-zip-ra",Z,[("return reference_type(std::begin(views)[i]...);","return reference_type(std::begin(views)[i & 0xffffff]...);")],"V"),
]
