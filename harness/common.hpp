// The whole library as one translation unit (library.hpp is generated from /repo's source tree).
#pragma once
#include "library.hpp"
#include "sym.hpp"
#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/FileReader.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/Reader.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/Schema.hpp>
#include <log_surgeon/SchemaParser.hpp>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace ls = log_surgeon;
using std::string;
using std::string_view;
using std::vector;

inline std::unique_ptr<ls::SchemaAST> schema(string const& text) {
    return ls::SchemaParser::try_schema_string(text);
}
