// The part of mettle the adapter uses.
#pragma once
#include <stdexcept>
#include <string>
namespace mettle {
    class expectation_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
}
