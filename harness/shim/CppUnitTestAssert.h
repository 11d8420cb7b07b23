// The part of the MSTest C++ framework the adapter uses.
#pragma once
#include <string>
namespace Microsoft { namespace VisualStudio { namespace CppUnitTestFramework {
    struct __LineInfo { __LineInfo(const wchar_t *f, const char *fn, int l) : file(f), func(fn), line(l) {} const wchar_t *file; const char *func; int line; };
    struct Failed { std::wstring message; };
    class Assert {
    public:
        static void Fail(const wchar_t *message = nullptr, const __LineInfo * = nullptr) { throw Failed{message ? message : L""}; }
    };
}}}
