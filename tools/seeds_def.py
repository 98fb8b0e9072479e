DEMO_SH = """#!/bin/bash
# run in the repository root; exit 0 iff the demonstrated behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
g++ -std=c++14 -O1 -DNDEBUG -w -DMODE_TI -pthread -I include "$d/demo.cpp" lib/*.cpp -ldivsufsort -ldivsufsort64 -o "$t/demo" || { rm -rf "$t"; exit 3; }
(cd "$t" && timeout 120 ./demo)
rc=$?
rm -rf "$t"
exit $rc
"""
PRE = """#include <iostream>
#include <string>
#include <vector>
#include <set>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::cerr << "wrong: " #c << std::endl; exit(1); } } while (0)
"""
SEEDS = {}
def seed(sid, **k): SEEDS[sid] = k

seed("c09_reset_stale", property="C09", file="include/sdsl/int_vector_buffer.hpp",
 old="            // reset buffer\n            read_block(0);", new="            // reset buffer",
 needs="reset() while a later block is buffered, then a write into that block which leaves a gap before it",
 breaks="the buffered block keeps the values from before reset(): they reappear in the gap and in the file",
 demo="""#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/ram_fs.hpp>
using namespace sdsl;
int main() {
    std::string f = "@demo_ivb";
    {
        int_vector_buffer<8> b(f, std::ios::out, 8);
        for (int i = 0; i < 20; ++i) b.push_back(100 + i);
        b.reset();
        CHECK(b.size() == 0);
        b[18] = 7;
        CHECK((uint64_t)b[17] == 0);
    }
    int_vector<8> v; load_from_file(v, f);
    CHECK(v.size() == 19);
    for (int i = 0; i < 18; ++i) CHECK(v[i] == 0);
    CHECK(v[18] == 7);
}
""")
seed("c21_stack_border", property="C21", file="include/sdsl/cst_iterators.hpp",
 old="            if (m_stack_cache != nullptr and m_stack_size < cache_size) {\n                return m_stack_cache[m_stack_size];",
 new="            if (m_stack_cache != nullptr and m_stack_size <= cache_size) {\n                return m_stack_cache[m_stack_size % cache_size];",
 needs="a depth first traversal of a suffix tree deeper than the iterator's cache of 128 nodes",
 breaks="going up from depth 129 returns the node of depth 0",
 demo="""#include <sdsl/suffix_trees.hpp>
using namespace sdsl;
int main() {
    cst_sct3<> cst;
    construct_im(cst, std::string(200, 'a').c_str(), 1);
    size_t steps = 0, first = 0;
    for (auto it = cst.begin(); it != cst.end() && steps < 5000; ++it, ++steps) if (it.visit() == 1) ++first;
    CHECK(first == cst.nodes());
    CHECK(steps == 2 * cst.nodes() - cst.size());
}
""")
seed("c01_eq_tail", property="C01", file="include/sdsl/int_vector.hpp",
 old="    int8_t l = 64-(capacity()-bit_size());\n    return ((*data1)&bits::lo_set[l])==((*data2)&bits::lo_set[l]);",
 new="    return (*data1)==(*data2);",
 needs="two equal vectors, one of which was shrunk within its last word, so that old bits remain behind its end",
 breaks="operator== reports that vectors with equal size, width and elements differ",
 demo="""#include <sdsl/int_vector.hpp>
using namespace sdsl;
int main() {
    int_vector<> a(10, 5, 6), b(3, 5, 6);
    a[4] = 9;
    a.resize(3);
    CHECK(a.size() == b.size() && a[2] == b[2]);
    CHECK(a == b && !(a != b));
    bit_vector x(63, 1), y(62, 1);
    x[62] = 0;
    x.resize(62);
    CHECK(x == y);
}
""")
seed("c30_shr0", property="C30", file="include/sdsl/uint256_t.hpp",
 old="                low |= ((m_high << (127-x))<<1);", new="                low |= (m_high << (128-x));",
 needs="a 256-bit number with bits in its high half shifted right by 0",
 breaks="the high half is copied into the low half",
 demo="""#include <sdsl/uint256_t.hpp>
using namespace sdsl;
int main(int argc, char**) {
    uint256_t x(1, 2, (uint128_t)3);
    volatile int z = argc - 1;
    uint256_t y = x >> z;
    CHECK(y == x);
    CHECK((x >> (z + 64)) == uint256_t(2, 3, (uint128_t)0));
}
""")
seed("c33_free_twin", property="C33", file="lib/memory_management.cpp",
 old="        if (itr->second == block) {\n            found = itr;\n        }",
 new="        if (found == m_free_large.end()) {\n            found = itr;\n        }",
 needs="two free blocks of equal size, one of which is merged with a neighbour",
 breaks="the wrong block leaves the free list: a block is handed out although it is part of another one",
 demo="""#include <sdsl/memory_management.hpp>
#include <sys/mman.h>
#include <cstring>
using namespace sdsl;
static void* arena() { return calloc(1 << 16, 1); }
extern "C" void* mmap(void*, size_t, int, int, int, off_t) noexcept { return arena(); }
int main() {
    hugepage_allocator a;
    a.init(1 << 16);
    std::vector<void*> p;
    for (int i = 0; i < 6; ++i) p.push_back(a.mm_alloc(64));
    a.mm_free(p[0]);      // two free blocks of equal size ...
    a.mm_free(p[3]);
    a.mm_free(p[4]);      // ... the second one grows
    std::vector<std::pair<char*, size_t>> live;
    for (size_t n : {64, 64, 64, 64, 144, 64}) live.push_back({(char*)a.mm_alloc(n), n});
    for (int i : {1, 2, 5}) live.push_back({(char*)p[i], 64});
    for (auto& x : live) for (auto& y : live) if (&x != &y) CHECK(x.first + x.second <= y.first || y.first + y.second <= x.first);
}
""")
seed("c24_upper_weight", property="C24", file="include/sdsl/k2_treap_algorithm.hpp",
 old="                        if (contained(v.max_p, m_p1, m_p2) and v.max_v <= imag(m_r)) {",
 new="                        if (contained(v.max_p, m_p1, m_p2) and v.max_v < imag(m_r)) {",
 needs="range_3d whose upper weight equals the weight of a point that is the maximum of a square only partly inside the rectangle",
 breaks="the point is not reported",
 demo="""#include <sdsl/k2_treap.hpp>
using namespace sdsl;
int main() {
    std::vector<std::array<uint64_t, 3>> v;
    for (uint64_t x = 0; x < 8; ++x) for (uint64_t y = 0; y < 8; ++y) if ((x + y) % 3 == 0) v.push_back({x, y, 10 + (5 * x + 3 * y) % 7});
    auto w = v;
    k2_treap<2, bit_vector> t;
    construct_im(t, w);
    for (uint64_t x2 = 0; x2 < 8; ++x2) for (uint64_t y2 = 0; y2 < 8; ++y2) for (uint64_t hi = 10; hi < 17; ++hi) {
        size_t expect = 0, got = 0;
        for (auto& p : v) if (p[0] <= x2 && p[1] <= y2 && p[2] <= hi) ++expect;
        auto it = range_3d(t, {0, 0}, {x2, y2}, {0, hi});
        while (it) { ++got; ++it; }
        CHECK(got == expect);
    }
}
""")
seed("c11_size_creates", property="C11", file="lib/ram_fs.cpp",
 old="    std::lock_guard<std::recursive_mutex> lock(m_rlock);\n    if (exists(name)) {\n        return m_map[name].size();\n    } else {\n        return 0;\n    }",
 new="    std::lock_guard<std::recursive_mutex> lock(m_rlock);\n    return m_map[name].size();",
 needs="asking for the size of a RAM-file that does not exist, then whether it exists",
 breaks="the question creates an empty file",
 demo="""#include <sdsl/ram_fs.hpp>
#include <sdsl/util.hpp>
using namespace sdsl;
int main() {
    CHECK(!ram_fs::exists("@nothing"));
    CHECK(util::file_size("@nothing") == 0);
    CHECK(!ram_fs::exists("@nothing"));
    CHECK(ram_fs::file_size("@nothing") == 0);
    CHECK(!ram_fs::exists("@nothing"));
}
""")
seed("c34_record_race", property="C34", file="include/sdsl/memory_management.hpp",
 old="""                std::lock_guard<util::spin_lock> lock(m.spinlock);
                auto cur = timer::now();
                if (m.last_event + m.log_granularity < cur) {
                    m.event_stack.top().allocations.emplace_back(cur, m.current_usage);
                    m.current_usage = m.current_usage + delta;""",
 new="""                auto cur = timer::now();
                const int64_t usage = m.current_usage + delta; // keep the critical section short
                std::lock_guard<util::spin_lock> lock(m.spinlock);
                if (m.last_event + m.log_granularity < cur) {
                    m.event_stack.top().allocations.emplace_back(cur, m.current_usage);
                    m.current_usage = usage;""",
 needs="two threads which record at the same time, a third of a microsecond apart, in the logged case (granularity passed)",
 breaks="the update of one of them is lost",
 demo="""#include <sdsl/memory_management.hpp>
#include <thread>
using namespace sdsl;
int main() {
    memory_monitor::granularity(std::chrono::milliseconds(0));
    memory_monitor::start();
    const int n = 200000;
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([] { for (int i = 0; i < n; ++i) memory_monitor::record(1); });
    for (auto& t : ts) t.join();
    memory_monitor::record(0);
    memory_monitor::stop();
    CHECK(memory_monitor::peak() == 4 * n);
}
""")
seed("c35_id_race", property="C35", file="include/sdsl/util.hpp",
 old="            return id++;", new="            uint64_t next = id;\n            id = next+1;\n            return next;",
 needs="two threads which ask for an identifier at the same time",
 breaks="both get the same identifier, so that their temporary files have the same names",
 demo="""#include <sdsl/util.hpp>
#include <algorithm>
#include <thread>
using namespace sdsl;
int main() {
    const int n = 300000;
    std::vector<std::vector<uint64_t>> ids(4);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&ids, t] { for (int i = 0; i < n; ++i) ids[t].push_back(util::id()); });
    for (auto& t : ts) t.join();
    std::vector<uint64_t> all;
    for (auto& v : ids) all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end());
    CHECK(std::adjacent_find(all.begin(), all.end()) == all.end());
}
""")
seed("c13_sd_select0", property="C13", file="include/sdsl/sd_vector.hpp",
 old="            m_high_0_select = v.m_high_0_select;\n            m_high_0_select.set_vector(&m_high);\n        }\n\n    public:",
 new="            m_high_0_select = v.m_high_0_select;\n        }\n\n    public:",
 needs="a copy of an sd_vector which is used after the original was changed or destroyed",
 breaks="rank and access on the copy read the bits of the original",
 demo="""#include <sdsl/sd_vector.hpp>
#include <memory>
using namespace sdsl;
int main() {
    bit_vector b(5000, 0);
    for (size_t i = 0; i < b.size(); i += 1 + i % 7) b[i] = 1;
    std::unique_ptr<sd_vector<>> p(new sd_vector<>(b));
    sd_vector<> c(*p);
    *p = sd_vector<>(bit_vector(5000, 1));
    sd_vector<>::rank_1_type r(&c);
    size_t cnt = 0;
    for (size_t i = 0; i < b.size(); ++i) {
        CHECK(c[i] == b[i]);
        CHECK(r(i) == cnt);
        cnt += b[i];
    }
}
""")
# c26_width (inv_perm_support with a too narrow index) makes the existing test loop: not kept
seed("c27_unset_root", property="C27", file="include/sdsl/nn_dict_dynamic.hpp",
 old="                                if (!m_pbv->m_tree[r_node_position] and dep) { // go up in the tree",
 new="                                if (!m_pbv->m_tree[r_node_position] and dep > 1) { // go up in the tree",
 needs="removal of the last element of a whole subtree below the root, then a search which passes it",
 breaks="next and prev descend into the empty subtree and report an element that was removed",
 demo="""#include <sdsl/nn_dict_dynamic.hpp>
using namespace sdsl;
int main() {
    nn_dict_dynamic d(20000);
    d[5000] = 1;
    d[19000] = 1;
    d[5000] = 0;
    CHECK(d.next(0) == 19000);
    CHECK(d.prev(18999) == d.size());
}
""")
seed("c31_sml_left", property="C31", file="include/sdsl/lcp_support_tree2.hpp",
 old="            sml_lcp_buf.close(true);", new="            sml_lcp_buf.close();",
 needs="construction of a suffix tree with lcp_support_tree2 and a look into the directory afterwards",
 breaks="a temporary file stays in the cache directory",
 demo="""#include <sdsl/suffix_trees.hpp>
#include <dirent.h>
using namespace sdsl;
int main() {
    std::string text = "abracadabra";
    store_to_file((const char*)text.c_str(), "input");
    cst_sct3<csa_wt<>, lcp_support_tree2<>> cst;
    construct(cst, "input", 1);
    size_t files = 0;
    DIR* d = opendir(".");
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.' && std::string(e->d_name) != "demo" && std::string(e->d_name) != "input") { std::cerr << e->d_name << std::endl; ++files; }
    CHECK(files == 0);
}
""")
seed("c32_close", property="C32", file="lib/sfstream.cpp",
 edits=[("lib/sfstream.cpp", """osfstream::close()
{
    bool fail = false;
    if (nullptr == m_streambuf) {
        fail = true;
    } else {
        if (is_ram_file(m_file)) {
            fail = !((ram_filebuf*)m_streambuf)->close();
        } else {
            fail = !((std::filebuf*)m_streambuf)->close();
        }""", """osfstream::close()
{
    bool fail = false;
    if (nullptr == m_streambuf) {
        fail = true;
    } else {
        if (is_ram_file(m_file)) {
            fail = !((ram_filebuf*)m_streambuf)->close();
        } else {
            fail = !((std::filebuf*)m_streambuf)->is_open();
            ((std::filebuf*)m_streambuf)->close();
        }""")],
 needs="a device which takes no data at the last moment: the write at the closing of the file fails",
 breaks="storing reports success although the file does not hold the object",
 demo="""#include <sdsl/int_vector.hpp>
#include <sdsl/io.hpp>
using namespace sdsl;
int main() {
    int_vector<> v(100, 3, 20); // fits into the stream buffer
    CHECK(store_to_file(v, std::string("small")));
    CHECK(!store_to_file(v, std::string("/dev/full")));
}
""")
seed("c36_tree2_memo", property="C36", file="include/sdsl/lcp_support_tree2.hpp",
 edits=[("include/sdsl/lcp_support_tree2.hpp", """            size_type idx, offset=0;
            uint8_t val;
start:""", """            static const void* last_cst = nullptr; // long values are expensive: remember the last one
            static size_type last_i = 0, last_value = 0;
            if (last_cst == m_cst and last_i == i) {
                return last_value;
            }
            const size_type query = i;
            size_type idx, offset=0;
            uint8_t val;
start:"""), ("include/sdsl/lcp_support_tree2.hpp", """                return m_big_lcp[m_small_lcp.rank(idx ,255)] - offset;
            }
        }""", """                last_cst = m_cst;
                last_i = query;
                last_value = m_big_lcp[m_small_lcp.rank(idx ,255)] - offset;
                return last_value;
            }
        }""")],
 needs="two threads which read long LCP values of one suffix tree at the same time, or a second suffix tree at the address of a destroyed one",
 breaks="the value remembered for another query is returned",
 demo="""#include <sdsl/suffix_trees.hpp>
#include <thread>
#include <atomic>
using namespace sdsl;
typedef cst_sct3<csa_wt<>, lcp_support_tree2<>> cst_t;
int main() {
    std::string t(3000, 'a');
    cst_t cst;
    construct_im(cst, t.c_str(), 1);
    for (size_t i = 2; i < cst.size(); ++i) CHECK(cst.lcp[i] == i - 1);
    std::atomic<bool> wrong(false);
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; ++k) ts.emplace_back([&, k] { for (int r = 0; r < 400 && !wrong; ++r) for (size_t i = 300 + k; i < 900; i += 1 + k) if (cst.lcp[i] != i - 1) wrong = true; });
    for (auto& x : ts) x.join();
    CHECK(!wrong);
    construct_im(cst, ("b" + t).c_str(), 1);
    for (size_t i = 2; i < cst.size() - 1; ++i) CHECK(cst.lcp[i] == i - 1);
}
""")
