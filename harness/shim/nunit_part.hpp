// The part of NUnit and of C++/CLI the adapter uses.
#pragma once
#include <string>
struct String { std::string text; explicit String(const char *t) : text(t) {} };
#define gcnew new
namespace NUnit { namespace Framework {
    struct AssertionException { std::string message; };
    struct Assert { static void Fail(String *message) { AssertionException e{message->text}; delete message; throw e; } };
}}
