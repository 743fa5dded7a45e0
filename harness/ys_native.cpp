// Native implementation of ys.h.
//
//   prog CASES
//
// CASES is a text file of cases:
//   case
//   param NAME VALUE
//   in NAME COUNT VALUE...
//   obs COUNT VALUE...|-     (optional: expected observations)
//   end
// Exit code 0: every case passed; 1: a check failed; 3: an assumption did not
// hold; 4: an observation differs from the expected one. Crashes, sanitizer
// reports and hangs are seen by the caller.
#include "ys.h"
#include <cstdio>
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

namespace
{
    struct Input { std::string name; std::vector<uint64_t> vals; bool used = false; };
    std::vector<Input> inputs;
    std::map<std::string, uint64_t> params;
    std::vector<std::pair<bool, uint64_t>> expected;
    bool haveExpected = false;
    size_t obsPos = 0;
    int failures = 0, mismatches = 0;
    struct AssumeFailed {};
    struct CheckFailed {};
    unsigned long caseNo = 0;

    const std::vector<uint64_t>* take(const char* name)
    {
        for (auto& i : inputs)
        {
            if (!i.used && i.name == name)
            {
                i.used = true;
                return &i.vals;
            }
        }
        return nullptr;
    }

    uint64_t scalar(const char* name)
    {
        auto* v = take(name);
        return v && !v->empty() ? (*v)[0] : 0;
    }
}

extern "C" {
void ys_sym(void* p, uint64_t n, const char* name)
{
    auto* v = take(name);
    for (uint64_t i = 0; i < n; ++i)
        static_cast<unsigned char*>(p)[i] = v && i < v->size() ? (unsigned char)(*v)[i] : 0;
}
uint64_t ys_u64(const char* name) { return scalar(name); }
uint32_t ys_u32(const char* name) { return uint32_t(scalar(name)); }
uint8_t ys_u8(const char* name) { return uint8_t(scalar(name)); }
bool ys_u1(const char* name) { return scalar(name) & 1; }
void ys_assume(bool c) { if (!c) throw AssumeFailed(); }
void ys_check(bool c, const char* msg)
{
    if (!c)
    {
        printf("CHECK FAILED case=%lu: %s\n", caseNo, msg);
        ++failures;
        throw CheckFailed();
    }
}
void ys_observe(uint64_t v)
{
    if (haveExpected)
    {
        if (obsPos >= expected.size() || (expected[obsPos].first && expected[obsPos].second != v))
        {
            printf("OBSERVATION %zu of case %lu: %llu natively, %lld symbolically\n", obsPos, caseNo, (unsigned long long)v,
                   obsPos < expected.size() ? (long long)expected[obsPos].second : -1);
            ++mismatches;
        }
    }
    ++obsPos;
}
void ys_reach(const char*) {}
uint64_t ys_param(const char* name, uint64_t dflt)
{
    auto it = params.find(name);
    return it == params.end() ? dflt : it->second;
}
void ys_part(uint64_t) {}
uint64_t ys_concrete(uint64_t v) { return v; }
}

static int run(int argc, char** argv)
{
    if (argc < 2)
        return 2;
    std::ifstream f(argv[1]);
    std::string line;
    int assumes = 0;
    setvbuf(stdout, nullptr, _IONBF, 0);
    while (std::getline(f, line))
    {
        std::istringstream ss(line);
        std::string w;
        ss >> w;
        if (w == "case")
        {
            inputs.clear();
            params.clear();
            expected.clear();
            haveExpected = false;
            obsPos = 0;
        }
        else if (w == "param")
        {
            std::string n;
            int64_t v;
            ss >> n >> v;
            params[n] = uint64_t(v);
        }
        else if (w == "in")
        {
            Input i;
            size_t n;
            ss >> i.name >> n;
            for (size_t k = 0; k < n; ++k)
            {
                uint64_t v;
                ss >> v;
                i.vals.push_back(v);
            }
            inputs.push_back(i);
        }
        else if (w == "obs")
        {
            haveExpected = true;
            size_t n;
            ss >> n;
            for (size_t k = 0; k < n; ++k)
            {
                std::string t;
                ss >> t;
                expected.push_back({t != "-", t == "-" ? 0 : strtoull(t.c_str(), nullptr, 10)});
            }
        }
        else if (w == "end")
        {
            ++caseNo;
            try
            {
                ys_main();
                if (haveExpected && obsPos != expected.size())
                {
                    printf("case %lu made %zu observations natively, %zu symbolically\n", caseNo, obsPos, expected.size());
                    ++mismatches;
                }
            }
            catch (AssumeFailed&)
            {
                printf("ASSUMPTION FAILED case=%lu\n", caseNo);
                ++assumes;
            }
            catch (CheckFailed&)
            {
            }
            catch (std::exception& e)
            {
                printf("CHECK FAILED case=%lu: exception %s escapes: %s\n", caseNo, typeid(e).name(), e.what());
                ++failures;
            }
        }
    }
    printf("DONE cases=%lu failures=%d mismatches=%d assumes=%d\n", caseNo, failures, mismatches, assumes);
    return failures ? 1 : mismatches ? 4 : assumes ? 3 : 0;
}

// In a thread, for a stack that has room for the texts of the harnesses.
static int the_argc, result;
static char** the_argv;

int main(int argc, char** argv)
{
    the_argc = argc;
    the_argv = argv;
    pthread_attr_t attr;
    pthread_t thread;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, size_t(256) << 20);
    if (pthread_create(&thread, &attr, [](void*) -> void* { result = run(the_argc, the_argv); return nullptr; }, nullptr))
        return run(argc, argv);
    pthread_join(thread, nullptr);
    return result;
}
