// Native runtime: replays recorded inputs against the real, compiled code.
// Usage: prog ENTRY FILE, where FILE has one "name value" pair per line.
// Exit status: 0 all checks held, 1 a check failed, 2 input mismatch,
// 4 an assumption failed.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <vector>

static std::vector<std::pair<std::string, int64_t>> in;
static size_t pos = 0;
static std::map<std::string, int> cnt;

static int64_t next(char const *name)
{
    int k = cnt[name]++;
    std::string nm = k ? std::string(name) + "#" + std::to_string(k) : name;
    if (pos >= in.size() || in[pos].first != nm)
    {
        printf("REPLAY-MISMATCH want %s\n", nm.c_str());
        fflush(stdout);
        _Exit(2);
    }
    return in[pos++].second;
}
extern "C"
{
    int64_t vp_i64(char const *name, int64_t, int64_t) { return next(name); }
    bool vp_bool(char const *name) { return next(name) != 0; }
    int64_t vp_choose(char const *name, int64_t) { return next(name); }
    void vp_assume(bool c)
    {
        if (!c)
        {
            printf("REPLAY-ASSUME-FAILED\n");
            fflush(stdout);
            _Exit(4);
        }
    }
    void vp_check(bool c, char const *msg)
    {
        if (!c)
        {
            printf("REPLAY-VIOLATION %s\n", msg);
            fflush(stdout);
            _Exit(1);
        }
    }
    void vp_fail(char const *msg)
    {
        vp_check(false, msg);
        abort();
    }
    void vp_beyond(char const *msg)
    {
        printf("REPLAY-MISMATCH beyond the harness: %s\n", msg);
        fflush(stdout);
        _Exit(2);
    }
    void vp_cover(char const *) {}
    void vp_observe(int64_t v) { printf("OBS %lld\n", (long long)v); }
    int64_t vp_concrete(int64_t v) { return v; }
}
int main(int argc, char **argv)
{
    std::ifstream f(argv[2]);
    for (std::string line; std::getline(f, line);)
        if (auto const k = line.rfind(' '); k != std::string::npos)
            in.push_back({line.substr(0, k), std::atoll(line.c_str() + k + 1)});
    auto *fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn)
        return 3;
    try
    {
        fn();
    }
    catch (std::exception const &e)
    {
        printf("REPLAY-VIOLATION uncaught exception: %s\n", e.what());
        fflush(stdout);
        _Exit(1);
    }
    printf("REPLAY-OK\n");
    fflush(stdout);
    _Exit(0);
}
