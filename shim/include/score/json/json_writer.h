#ifndef VERIF_SHIM_JSON_WRITER_H
#define VERIF_SHIM_JSON_WRITER_H
#include "score/json/internal/model/any.h"
namespace score
{
namespace json
{
class JsonWriter final
{
  public:
    score::Result<void> ToFile(const Object& o, const std::string_view path) const;
    score::Result<std::string> ToBuffer(const Object& o) const;
    score::Result<std::string> ToBuffer(const List& o) const;
    score::Result<std::string> ToBuffer(const Any& o) const;
};
}  // namespace json
}  // namespace score
#endif
