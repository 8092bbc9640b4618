// C28: every allocation of a call is made to fail in turn; afterwards everything must be as if the call had not been made
#include "query.h"
#include <fstream>
#include <new>
#include <sstream>
#include "catima/convert.h"
using namespace mon;
using namespace catima;

static long live = 0, seen = 0, fail_at = -1;
static bool armed = false, failed = false;
static void* get(size_t n, bool nothrow) {
    if (armed && ++seen == fail_at) { failed = true; if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    live++;
    return p;
}
static void put_back(void* p) { if (p) { live--; free(p); } }
void* operator new(size_t n) { return get(n, false); }
void* operator new[](size_t n) { return get(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, true); }
void operator delete(void* p) noexcept { put_back(p); }
void operator delete[](void* p) noexcept { put_back(p); }
void operator delete(void* p, size_t) noexcept { put_back(p); }
void operator delete[](void* p, size_t) noexcept { put_back(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put_back(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put_back(p); }

// run f with its n-th allocation failing: 1 it threw bad_alloc, 0 it returned although an allocation failed, 2 no n-th allocation, -1 something else was thrown
template <typename F> static int with_failure(long n, F f) {
    seen = 0; fail_at = n; failed = false; armed = true;
    int res = 0;
    try { f(); }
    catch (const std::bad_alloc&) { res = 1; }
    catch (...) { res = -1; }
    armed = false;
    if (res == 0 && !failed) return 2;
    return res;
}
// nothing half-made in the store
static std::string store_state() {
    for (int i = 0; i < _storage.GetN(); i++) {
        auto& e = _storage.Get((unsigned)i);
        if (e.range.empty()) continue;
        if ((int)e.range.size() != max_datapoints || (int)e.range_straggling.size() != max_datapoints || (int)e.angular_variance.size() != max_datapoints) return fmt("entry %d has tables of %zu %zu %zu points", i, e.range.size(), e.range_straggling.size(), e.angular_variance.size());
        if (!(e.range[max_datapoints - 1] > 0) || !(e.range[1] > 0)) return fmt("entry %d is not calculated", i);
        if (e.m.ncomponents() < 1) return fmt("entry %d has no material", i);
    }
    if (_storage.GetN() != max_storage_data) return fmt("the store has %d entries", _storage.GetN());
    return "";
}
static void calls(long k, Rng& r) {
    Query q = gen_query(r);
    if (k % QKINDS != q.kind) { q.kind = k % QKINDS; if (q.kind == 14 && q.stack.empty()) { q.m.thickness(q.th * 0.3); q.stack = {q.m, q.m}; } }
    q.stack.resize(std::min<size_t>(q.stack.size(), 2));
    Query other = gen_query(r); other.kind = 0;
    bool prefill = r.chance(0.5);
    _storage.Reset();
    const auto want = eval(q);
    const auto want2 = eval(other);
    _storage.Reset();
    std::vector<double> got;
    long n = 1;
    for (;; n++) {
        _storage.Reset();
        DataPoint* kept = nullptr;
        if (prefill) kept = &_storage.Get(other.p, other.m, other.c);
        int res = with_failure(n, [&] { std::vector<double> v = eval(q); });
        if (res == 2) break;
        if (res < 0) { H.violation("other-exception", desc(q) + fmt(" allocation %ld", n)); break; }
        if (res == 0) H.count("returned although an allocation failed");
        auto st = store_state();
        if (!st.empty()) H.violation("store-damaged", st + " " + desc(q) + fmt(" allocation %ld", n));
        if (kept && !(kept->p == other.p && kept->m == other.m && &_storage.Get(other.p, other.m, other.c) == kept)) H.violation("retained-entry-lost", desc(q) + fmt(" allocation %ld", n));
        if (n % 3 == 1) { // the same call afterwards
            got = eval(q);
            if (!identical(got, want)) H.violation(std::string("wrong-after-failure-") + kind_name(q.kind), show(got, want) + desc(q) + fmt(" allocation %ld", n));
            if (prefill) { got = eval(other); if (!identical(got, want2)) H.violation("other-wrong-after-failure", show(got, want2) + desc(q) + fmt(" allocation %ld", n)); }
            got = std::vector<double>();
        }
        H.evaluations++;
        H.nontrivial(hash_mix(hash_of(q.p, q.m, q.c, hash_mix(k, q.kind)), n));
    }
    H.count(std::string("failures in ") + kind_name(q.kind), n - 1);
    H.maximum("allocations in one call", n - 1);
    // blocks: a failing call leaves none behind
    _storage.Reset();
    for (long j = 1; j < n; j += r.irange(1, 3)) {
        const long before = live;
        int res = with_failure(j, [&] { std::vector<double> v = eval(q); });
        _storage.Reset();
        if (live != before) H.violation("blocks-left", fmt("%ld blocks after failure of allocation %ld (%d) ", live - before, j, res) + desc(q));
        H.evaluations++;
    }
    got = eval(q);
    if (!identical(got, want)) H.violation(std::string("wrong-at-end-") + kind_name(q.kind), show(got, want) + desc(q));
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s\",\"allocations_failed\":%ld}", k, jesc(desc(q)).c_str(), n - 1));
}
static std::string text(const Material& m) { return desc(m) + fmt("/%.17g %.17g", m.M(), m.I()); }
static std::string text(const Layers& l) { std::string s; for (auto& m : l.get_materials()) s += text(m) + ";"; return s; }
static void values(long k, Rng& r) {
    Layers a, b;
    int na = r.irange(0, 5), nb = r.irange(0, 5);
    for (int i = 0; i < na; i++) { Material m = gen_material(r); m.thickness(r.loguni(1e-4, 1)); a.add(m); }
    for (int i = 0; i < nb; i++) { Material m = gen_material(r); m.thickness(r.loguni(1e-4, 1)); b.add(m); }
    Material m = gen_material(r), m2 = gen_material(r);
    m.thickness(0.1);
    int id = r.irange(1, 349);
    const std::string ta = text(a), tb = text(b), tm = text(m), tm2 = text(m2);
    std::vector<std::string> lay;
    for (auto& x : a.get_materials()) lay.push_back(text(x));
    int op = r.irange(0, 7);
    Projectile p = gen_projectile(r); p.T = gen_energy(r);
    std::string file = H.scratch + fmt("/c28.%d.%d", (int)getpid(), H.shard), whole;
    auto slurp = [&] { std::ifstream i(file); std::stringstream s; s << i.rdbuf(); return s.str(); };
    if (op == 7) { if (!save_mocadi(file.c_str(), p, a)) H.violation("export-failed", file); whole = slurp(); }
    long n = 1;
    for (;; n++) {
        Layers x = a;
        Material y = m;
        bool ok = false;
        int res = with_failure(n, [&] {
            switch (op) {
            case 0: x.add(m2); break;
            case 1: x.add(b); break;
            case 2: x.add(x); break;
            case 3: { Layers z = a + b; break; }
            case 4: { Layers z = a + m2; break; }
            case 5: y.add_element(0, 1 + id % 90, 2); break;
            case 6: { Material z = get_material(id); Material w({{0, 1, 2}, {0, 8, 1}}, 1.0); z = w; break; }
            default: ok = save_mocadi(file.c_str(), p, a); break;
            }
        });
        if (res == 2) break;
        if (res < 0) { H.violation("other-exception", fmt("operation %d allocation %ld", op, n)); break; }
        H.evaluations++;
        H.count(fmt("failures in value operation %d", op));
        if (text(a) != ta || text(b) != tb || text(m) != tm || text(m2) != tm2) H.violation("source-changed", fmt("operation %d allocation %ld ", op, n) + ta);
        std::string tx = text(x);
        // what was there stays; of added layers only complete ones may be there
        std::string full = op == 0 ? ta + tm2 + ";" : op == 1 ? ta + tb : op == 2 ? ta + ta : ta;
        if (full.compare(0, tx.size(), tx) != 0 || tx.size() < ta.size()) H.violation("stack-damaged", fmt("operation %d allocation %ld ", op, n) + tx);
        if (text(y) != tm) H.violation("material-damaged", fmt("operation %d allocation %ld ", op, n) + text(y));
        if (op == 7 && ok && slurp() != whole) H.violation("export-reported-complete", fmt("allocation %ld", n));
        H.nontrivial(hash_mix(hash_mix(k, op), n));
    }
    // blocks
    for (long j = 1; j < n; j++) {
        const long before = live;
        {
            Layers x = a;
            Material y = m;
            with_failure(j, [&] {
                switch (op) {
                case 0: x.add(m2); break;
                case 1: x.add(b); break;
                case 2: x.add(x); break;
                case 3: { Layers z = a + b; break; }
                case 4: { Layers z = a + m2; break; }
                case 5: y.add_element(0, 1 + id % 90, 2); break;
                case 6: { Material z = get_material(id); Material w({{0, 1, 2}, {0, 8, 1}}, 1.0); z = w; break; }
                default: save_mocadi(file.c_str(), p, a); break;
                }
            });
        }
        if (live != before) H.violation("blocks-left", fmt("%ld blocks, value operation %d, allocation %ld", live - before, op, j));
        H.evaluations++;
    }
    if (op == 7) unlink(file.c_str());
}
static void one(long k, Rng& r) { if (k % 3 == 2) values(k, r); else calls(k / 3 * 2 + k % 3, r); }
MON_MAIN(H.run(one))
