// Shared by the native replay programs: random choices, current case, reporting.
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sanitizer/common_interface_defs.h>
#include <signal.h>
#include <unistd.h>

static std::string g_case;
static uint64_t g_s = 88172645463325252ull;
static uint64_t rnd() { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return g_s; }
static uint64_t rnd(uint64_t n) { return rnd() % n; }
static void note(const char* fmt, ...)
{
    char b[512];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    g_case += b;
}
static void death()
{
    fprintf(stdout, "FAIL (sanitizer) case: %s\n", g_case.c_str());
    fflush(stdout);
}
static void fail(const char* fmt, ...)
{
    char b[2048];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    printf("FAIL case: %s\n  %s\n", g_case.c_str(), b);
    fflush(stdout);
    _exit(1);
}
static void on_alarm(int)
{
    printf("FAIL (does not terminate) case: %s\n", g_case.c_str());
    fflush(stdout);
    _exit(1);
}
static uint64_t g_runs = 0;
template <class F> int search(int argc, char** argv, F one)
{
    std::string prop = argc > 1 ? argv[1] : "";
    uint64_t seed = argc > 2 ? strtoull(argv[2], nullptr, 0) : 1;
    double secs = argc > 3 ? atof(argv[3]) : 5;
    g_s += seed * 0x9E3779B97F4A7C15ull;
    if (!g_s) g_s = 1;
    __sanitizer_set_death_callback(death);
    signal(SIGALRM, on_alarm);
    auto t0 = std::chrono::steady_clock::now();
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs)
    {
        alarm(8);
        for (int i = 0; i < 64; ++i)
        {
            g_case.clear();
            one(prop);
            ++g_runs;
        }
    }
    printf("OK runs=%llu\n", (unsigned long long)g_runs);
    return 0;
}
static uint64_t interesting()
{
    static const uint64_t v[] = { 0, 1, 2, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768,
        65535, 65536, 65537, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x100000000ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull };
    uint64_t x;
    switch (rnd(4))
    {
    case 0: x = v[rnd(sizeof v / sizeof *v)]; break;
    case 1: x = rnd() >> rnd(64); break;
    case 2: x = rnd(40); break;
    default: x = rnd(); break;
    }
    if (rnd(3) == 0) x = 0 - x;
    return x;
}
