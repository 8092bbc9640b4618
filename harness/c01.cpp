// C01: every result is compared with the one of the same call in a process that made no other call
#include "query.h"
#include <sys/socket.h>
#include <sys/wait.h>
using namespace mon;

// The server is forked before the first call into the library and forks once per question, so that
// every answer comes from a process in its initial state.
static int srv = -1;
static bool io(int fd, void* b, size_t n, bool wr) {
    char* p = (char*)b;
    while (n) { ssize_t k = wr ? write(fd, p, n) : read(fd, p, n); if (k <= 0) return false; p += k; n -= k; }
    return true;
}
struct Key { uint64_t base; int nmut; uint64_t mut; };
static Query make(const Key& k) {
    Rng r(k.base, 17);
    Query q = gen_query(r);
    Rng s(k.mut, 23);
    for (int i = 0; i < k.nmut; i++) mutate(q, s);
    return q;
}
static void start_server() {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(3);
    pid_t pid = fork();
    if (pid < 0) _exit(3);
    if (pid == 0) {
        close(sv[0]);
        if (H.pfd >= 0) close(H.pfd);
        Key k;
        while (io(sv[1], &k, sizeof k, false)) {
            pid_t c = fork();
            if (c == 0) {
                auto v = eval(make(k));
                size_t n = v.size();
                if (!io(sv[1], &n, sizeof n, true) || !io(sv[1], v.data(), n * 8, true)) _exit(3);
                _exit(0);
            }
            int st = 0;
            waitpid(c, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { size_t n = (size_t)-1; io(sv[1], &n, sizeof n, true); }
        }
        _exit(0);
    }
    close(sv[1]);
    srv = sv[0];
}
static std::vector<double> fresh(const Key& k) {
    Key c = k;
    size_t n = 0;
    if (!io(srv, &c, sizeof c, true) || !io(srv, &n, sizeof n, false)) { fprintf(stderr, "server lost\n"); _exit(3); }
    if (n == (size_t)-1) { H.violation("fresh-process-died", desc(make(k))); return {}; }
    std::vector<double> v(n);
    if (!io(srv, v.data(), n * 8, false)) { fprintf(stderr, "server lost\n"); _exit(3); }
    return v;
}
static void one(long k, Rng& r) {
    // pool: some bases, each with neighbours which differ in one field
    int nb = r.irange(6, 30), per = r.irange(1, 6);
    bool small = r.chance(0.4); // small pools revisit combinations often, large ones overflow the cache
    if (small) { nb = r.irange(2, 8); }
    std::vector<Key> keys;
    for (int i = 0; i < nb; i++) {
        uint64_t b = r.u64();
        keys.push_back({b, 0, 0});
        for (int j = 1; j < per; j++) keys.push_back({b, r.chance(0.8) ? 1 : 2, r.u64()});
    }
    std::vector<std::vector<double>> want(keys.size());
    std::vector<char> have(keys.size(), 0);
    std::vector<Query> qs;
    for (auto& x : keys) qs.push_back(make(x));
    int len = H.tier == "quick" ? r.irange(60, 160) : r.irange(100, 400);
    int recent = 0;
    std::string hist;
    for (int i = 0; i < len; i++) {
        if (r.chance(0.004)) { catima::_storage.Reset(); H.count("cache cleared"); hist += " reset"; }
        int j = r.chance(0.5) ? r.irange(0, keys.size() - 1) : r.chance(0.5) ? recent : std::min<int>(keys.size() - 1, recent / per * per + r.irange(0, per - 1));
        recent = j;
        auto got = eval(qs[j]);
        if (!have[j]) { want[j] = fresh(keys[j]); have[j] = 1; H.count("fresh-process answers"); }
        H.evaluations++;
        hist += fmt(" %d", j);
        if (!identical(got, want[j])) H.violation(std::string("history-") + kind_name(qs[j].kind), show(got, want[j]) + desc(qs[j]) + fmt(" after %d calls", i));
        H.count(kind_name(qs[j].kind));
        H.nontrivial(hash_mix(hash_mix(k, i), j));
    }
    H.maximum("longest history", len);
    H.maximum("combinations in one history", keys.size());
    H.sample(fmt("{\"case\":%ld,\"pool\":%zu,\"calls\":%d,\"first_call\":\"%s\"}", k, keys.size(), len, jesc(desc(qs[0])).c_str()));
}
MON_MAIN(start_server(); H.run(one); close(srv))
