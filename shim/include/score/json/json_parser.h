#ifndef VERIF_SHIM_JSON_PARSER_H
#define VERIF_SHIM_JSON_PARSER_H
#include "score/json/internal/model/any.h"
namespace score
{
namespace json
{
class JsonParser final
{
  public:
    score::Result<Any> FromFile(const std::string_view path) const noexcept;
    score::Result<Any> FromBuffer(const std::string_view buffer) const noexcept;
};
Any operator""_json(const char* data, std::size_t size);
}  // namespace json
}  // namespace score
#endif
