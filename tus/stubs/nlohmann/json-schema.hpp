// Stand-in for the JSON schema validator, which is not installed here: lets
// TaintConfigBase.cpp be analysed. The schema validation itself is not judged.
#pragma once
#include "nlohmann/json.hpp"
namespace nlohmann::json_schema {
class json_validator {
public:
  void set_root_schema(const json &Schema);
  json validate(const json &Instance) const;
};
} // namespace nlohmann::json_schema
